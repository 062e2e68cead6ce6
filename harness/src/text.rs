//! C01 range algebra, C02 text views, C03 text edits, C04 equality/order/hash.
use crate::rt::*;
use fall_text::{tu, Text, TextBuf, TextEdit, TextEditBuilder, TextEditOp, TextRange, TextSuffix, TextUnit};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

fn u(x: TextUnit) -> u32 { x.into() }
/// two arbitrary offsets in order
fn sym_range() -> (u32, u32, TextRange) {
    let (a, b) = (sym(32) as u32, sym(32) as u32);
    assume(a <= b);
    (a, b, TextRange::from_to(tu(a), tu(b)))
}
const WIDE: &[char] = &['é', '\u{2003}', '😀'];
const WS: &[char] = &['\u{2003}', '\u{85}', 'é'];
fn boundary(s: &str) -> usize {
    let i = choose(s.len() + 1);
    assume(s.is_char_boundary(i));
    i
}
fn boundary_from(s: &str, lo: usize) -> usize {
    let i = lo + choose(s.len() + 1 - lo);
    assume(s.is_char_boundary(i));
    i
}
/// a view of `len` characters inside a bigger buffer: prefix and suffix are part of the buffer, not of the view
fn view<'a>(buf: &'a TextBuf, lo: usize, hi: usize) -> Text<'a> { buf.as_text().slice(TextRange::from_to(tu(lo as u32), tu(hi as u32))) }

#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
}
fn digest<T: Hash>(t: &T) -> Vec<u8> { let mut r = Rec::default(); t.hash(&mut r); r.0 }
fn ord(o: Option<Ordering>) -> u8 { match o { None => 9, Some(Ordering::Less) => 0, Some(Ordering::Equal) => 1, Some(Ordering::Greater) => 2 } }

crate::entries! {
fn c01_units() {
    let (a, b) = (sym(32) as u32, sym(32) as u32);
    let (x, y) = (tu(a), tu(b));
    assert((x == y) == (a == b), 1);
    assert((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), 2);
    assert(u(x) == a && x.utf8_len() == a as usize, 3);
    if (a as u64) + (b as u64) <= u32::max_value() as u64 {
        reach(1);
        assert(u(x + y) == a + b && u(x + b) == a + b, 4);
        let mut z = x; z += y;
        assert(z == x + y, 5);
        assert((x + y) - y == x && (x + y) - b == x, 6);
        assert(u(vec![x, y].into_iter().sum()) == a + b, 7);
    }
    if a >= b {
        reach(2);
        assert(u(x - y) == a - b && u(x - b) == a - b, 8);
        let mut z = x; z -= y;
        assert(z == x - y && z + y == x, 9);
    }
    obs(a as u64 ^ b as u64);
}
fn c01_underflow() {
    // subtracting past zero is rejected, never wrapped
    let (a, b) = (sym(32) as u32, sym(32) as u32);
    assume(a < b);
    reach(1);
    let k = choose(3);
    expect_panic(true);
    let _ = match k { 0 => tu(a) - tu(b), 1 => tu(a) - b, _ => { let mut x = tu(a); x -= tu(b); x } };
    must_not_return(1);
}
fn c01_overflow() {
    // nor is adding past the largest offset
    let (a, b) = (sym(32) as u32, sym(32) as u32);
    assume(a as u64 + b as u64 > u32::max_value() as u64);
    reach(1);
    let k = choose(7);
    expect_panic(true);
    let _ = match k {
        0 => tu(a) + tu(b), 1 => tu(a) + b, 2 => { let mut x = tu(a); x += tu(b); x }
        3 => vec![tu(a), tu(b)].into_iter().sum(), 4 => vec![tu(a), tu(0), tu(b)].into_iter().sum(),
        5 => TextRange::from_len(tu(a), tu(b)).end(),
        _ => TextRange::from_to(tu(0), tu(a)).shift_right(tu(b)).end(),
    };
    must_not_return(1);
}
fn c01_serde() {
    use serde::de::value::{Error, SeqDeserializer};
    use serde::Deserialize;
    let (a, b) = (sym(32) as u32, sym(32) as u32);
    assume(a <= b || a < 4);
    let r: Result<TextRange, Error> = TextRange::deserialize(SeqDeserializer::new(vec![a, b].into_iter()));
    match r {
        Ok(r) => { reach(1); assert(a <= b && u(r.start()) == a && u(r.end()) == b, 1) }
        Err(_) => { reach(2); assert(a > b, 2) }
    }
    obs((a <= b) as u64);
}
fn c01_bad_range() {
    let (a, b) = (sym(32) as u32, sym(32) as u32);
    assume(a > b);
    reach(1);
    expect_panic(true);
    let _ = TextRange::from_to(tu(a), tu(b));
    must_not_return(1);
}
fn c01_range() {
    let (a, b, r) = sym_range();
    assert(u(r.start()) == a && u(r.end()) == b && u(r.len()) == b - a, 1);
    assert(r.is_empty() == (a == b), 2);
    assert(TextRange::from_len(tu(a), tu(b - a)) == r, 3);
    let x = sym(32) as u32;
    assert(r.contains_offset_nonstrict(tu(x)) == (a <= x && x <= b), 4);
    if (b as u64) + (x as u64) <= u32::max_value() as u64 {
        reach(1);
        let s = r.shift_right(tu(x));
        assert(u(s.start()) == a + x && u(s.end()) == b + x, 5);
    }
    let c = sym(32) as u32;
    if c >= b {
        reach(2);
        let g = r.glue(TextRange::from_to(tu(b), tu(c)));
        assert(u(g.start()) == a && u(g.end()) == c, 6);
        assert(r.is_subrange_of(g), 7);
    }
    assert(TextRange::empty().is_empty() && u(TextRange::empty().start()) == 0, 8);
    obs(a as u64); obs(b as u64);
}
fn c01_glue_gap() {
    let (_a, b, r) = sym_range();
    let (c, _d, q) = sym_range();
    assume(b != c);
    reach(1);
    expect_panic(true);
    let _ = r.glue(q);
    must_not_return(1);
}
fn c01_pair() {
    let (a, b, r) = sym_range();
    let (c, d, q) = sym_range();
    let x = sym(32) as u32;
    let inr = a <= x && x < b;
    let inq = c <= x && x < d;
    assert((r == q) == (a == c && b == d), 1);
    assert(r.intersects(q) != r.disjoint(q), 2);
    assert(r.disjoint(q) == q.disjoint(r), 3);
    // disjoint ranges share no position; for non-empty ranges the converse holds too
    if r.disjoint(q) { reach(1); assert(!(inr && inq), 4); }
    else if a < b && c < d { reach(2); let w = if a > c { a } else { c }; assert(a <= w && w < b && c <= w && w < d, 5); }
    // sub-range means: every position of r (and both its ends) is in q
    if r.is_subrange_of(q) {
        reach(3);
        assert(!inr || inq, 6);
        assert(q.contains_offset_nonstrict(r.start()) && q.contains_offset_nonstrict(r.end()), 7);
        assert(r.len() <= q.len(), 8);
        if q.is_subrange_of(r) { assert(r == q, 9); }
    } else { assert(a < c || b > d, 10); }
    obs(r.disjoint(q) as u64); obs(r.is_subrange_of(q) as u64);
}
fn c01_order() {
    let (a, b, r) = sym_range();
    let (c, d, q) = sym_range();
    let o = ord(r.partial_cmp(&q));
    let p = ord(q.partial_cmp(&r));
    // equal exactly when ==, opposite directions agree, Less means "entirely before"
    assert((o == 1) == (r == q), 1);
    assert((o == 0) == (p == 2) && (o == 2) == (p == 0) && (o == 9) == (p == 9), 2);
    if o == 0 { reach(1); assert(b <= c, 3); }
    if o == 2 { reach(2); assert(d <= a, 4); }
    if o == 9 { reach(3); assert(r.intersects(q), 5); }
    if b <= c && r != q { assert(o == 0, 6); }
    obs(o as u64); obs(p as u64);
}
fn c01_index() {
    // indexing a string by a range is the byte range
    let s = utf8(param(0) as usize, WIDE);
    let i = boundary(&s);
    let j = boundary_from(&s, i);
    let r = TextRange::from_to(tu(i as u32), tu(j as u32));
    reach(1);
    assert(s[r] == s[i..j] && s.as_str()[r] == s[i..j], 1);
    obs_str(&s[r]);
}

fn c02_slice() {
    let s = utf8(param(0) as usize, WIDE);
    let buf = TextBuf::from(s.as_str());
    let (lo, hi) = { let lo = boundary(&s); (lo, boundary_from(&s, lo)) };
    let t = view(&buf, lo, hi);
    let sub = &s[lo..hi];
    assert(u(t.len()) as usize == sub.len() && t.is_empty() == sub.is_empty(), 1);
    assert(t.to_string() == sub && t == sub && *t.to_cow() == *sub, 2);
    assert(t.to_text_buf() == sub, 3);
    assert(t.chars().eq(sub.chars()), 4);
    let i = boundary(sub);
    let j = boundary_from(sub, i);
    let w = t.slice(TextRange::from_to(tu(i as u32), tu(j as u32)));
    reach(1);
    assert(w == &sub[i..j] && u(w.len()) as usize == j - i, 5);
    let suf = t.slice(TextSuffix::from(tu(i as u32)));
    assert(suf == &sub[i..], 6);
    assert(buf == s.as_str() && buf.as_text() == s.as_str(), 7);
    obs_str(&w.to_string());
}
fn c02_slice_oob() {
    // a view never reaches outside its own range, even when the backing buffer continues
    let n = param(0) as usize;
    let s = ascii(n);
    let buf = TextBuf::from(s.as_str());
    let lo = choose(n + 1); let hi = lo + choose(n + 1 - lo);
    let t = view(&buf, lo, hi);
    let (i, j) = (sym(32) as u32, sym(32) as u32);
    assume(i <= j && j as usize > hi - lo);
    reach(1);
    let suffix = flag();
    if suffix { assume(i as usize > hi - lo); }
    expect_panic(true);
    if suffix { let _ = t.slice(TextSuffix::from(tu(i))); } else { let _ = t.slice(TextRange::from_to(tu(i), tu(j))); }
    must_not_return(1);
}
fn c02_search() {
    let n = param(0) as usize; let m = param(1) as usize;
    let s = if param(2) == 0 { over(b"ab", n) } else { utf8(n, &['é']) };
    let buf = TextBuf::from(s.as_str());
    let (lo, hi) = { let lo = boundary(&s); (lo, boundary_from(&s, lo)) };
    let t = view(&buf, lo, hi);
    let sub = &s[lo..hi];
    let needle = if param(2) == 0 { over(b"ab", m) } else { utf8(m, &['é']) };
    // reference: positions where the needle occurs inside the view
    let at = |i: usize| i + needle.len() <= sub.len() && sub.as_bytes()[i..i + needle.len()] == *needle.as_bytes();
    let first = (0..sub.len() + 1).find(|&i| at(i));
    let last = (0..sub.len() + 1).rev().find(|&i| at(i));
    assert(t.find(&needle).map(|x| u(x) as usize) == first, 1);
    assert(t.rfind(&needle).map(|x| u(x) as usize) == last, 2);
    assert(t.contains(&needle) == first.is_some(), 3);
    assert(t.starts_with(&needle) == at(0), 4);
    assert(t.ends_with(&needle) == (sub.len() >= needle.len() && at(sub.len() - needle.len())), 5);
    if first.is_some() && first != last { reach(1); }
    if first.is_none() { reach(2); }
    obs(first.map_or(99, |x| x as u64)); obs(last.map_or(99, |x| x as u64));
}
fn c02_trim() {
    let s = utf8(param(0) as usize, WS);
    let buf = TextBuf::from(s.as_str());
    let (lo, hi) = { let lo = boundary(&s); (lo, boundary_from(&s, lo)) };
    let t = view(&buf, lo, hi);
    let sub = &s[lo..hi];
    let tr = t.trim();
    // reference: drop whitespace characters one at a time from both ends
    let cs: Vec<char> = sub.chars().collect();
    let (mut i, mut j) = (0, cs.len());
    while i < j && cs[i].is_whitespace() { i += 1 }
    while i < j && cs[j - 1].is_whitespace() { j -= 1 }
    let exp: String = cs[i..j].iter().collect();
    assert(tr == exp.as_str(), 1);
    assert(tr.trim() == tr, 2);
    if i > 0 && j < cs.len() && i < j { reach(1); }
    if i == j && cs.len() > 0 { reach(2); }
    obs_str(&tr.to_string());
}

fn c03_builder() {
    let n = param(0) as usize; let k = param(1) as usize;
    let s = ascii(n);
    let buf = TextBuf::from(s.as_str());
    let mut b = TextEditBuilder::new(buf.as_text());
    let mut exp: Vec<u8> = Vec::new();
    let mut last = 0usize;
    for q in 0..k {
        let op = choose(3);
        let from = last + choose(n + 1 - last);
        let to = if op == 0 { from } else { from + choose(n + 1 - from) };
        let r = TextRange::from_to(tu(from as u32), tu(to as u32));
        let ins = if op == 1 { String::new() } else { let l = choose(3); over(&[b'X' + q as u8, b'0'], l) };
        match op { 0 => b.insert(tu(from as u32), ins.as_str()), 1 => b.delete(r), _ => b.replace(r, ins.as_str()) }
        exp.extend_from_slice(&s.as_bytes()[last..from]);
        exp.extend_from_slice(ins.as_bytes());
        last = to;
        if op == 2 && from > 0 && to < n && ins.len() > 0 && to > from { reach(1); }
    }
    exp.extend_from_slice(&s.as_bytes()[last..]);
    let e = b.build();
    let out = e.apply(buf.as_text()).to_string();
    assert(out.as_bytes() == &exp[..], 1);
    // untouched text is carried over as copies of ascending, disjoint source ranges
    let mut pos = 0; let mut copied = 0; let mut inserted = 0;
    for op in e.ops.iter() {
        match op {
            TextEditOp::Copy(r) => { assert(u(r.start()) as usize >= pos && u(r.end()) as usize <= n, 2); pos = u(r.end()) as usize; copied += u(r.len()) as usize; }
            TextEditOp::Insert(t) => inserted += u(t.as_text().len()) as usize,
        }
    }
    assert(copied + inserted == out.len(), 3);
    obs_str(&out);
}
fn c03_view() {
    // edits are relative to the text they were built for, also when it is a view into a longer buffer
    let n = param(0) as usize;
    let s = ascii(n);
    let buf = TextBuf::from(s.as_str());
    let lo = choose(n + 1); let hi = lo + choose(n + 1 - lo); let l = hi - lo;
    let t = view(&buf, lo, hi);
    let mut b = TextEditBuilder::new(t);
    let from = choose(l + 1); let to = from + choose(l + 1 - from);
    b.replace(TextRange::from_to(tu(from as u32), tu(to as u32)), "XY");
    let out = b.build().apply(t).to_string();
    reach(1);
    assert(out == s[lo..lo + from].to_string() + "XY" + &s[lo + to..hi], 1);
    obs_str(&out);
}
fn c03_invalid() {
    // an edit that goes backwards, overlaps or runs past the end is rejected
    let n = param(0) as usize;
    let s = ascii(n);
    let buf = TextBuf::from(s.as_str());
    let mut b = TextEditBuilder::new(buf.as_text());
    let (p1, p2) = (choose(n + 2), choose(n + 3));
    assume(p1 <= p2);
    let q = choose(n + 2);
    assume(q < p2 || p2 > n);
    let k = choose(3);
    reach(1);
    expect_panic(true);
    b.delete(TextRange::from_to(tu(p1 as u32), tu(p2 as u32)));
    match k { 0 => b.insert(tu(q as u32), "x"), 1 => b.delete(TextRange::from_to(tu(q as u32), tu(q as u32 + 1))), _ => b.replace(TextRange::from_to(tu(q as u32), tu(q as u32)), "y") }
    let e = b.build();
    let _ = e.apply(buf.as_text());
    must_not_return(1);
}
fn c03_apply() {
    // any operation list: apply concatenates the pieces
    let n = param(0) as usize; let k = param(1) as usize;
    let s = ascii(n);
    let buf = TextBuf::from(s.as_str());
    let mut ops = Vec::new(); let mut exp = String::new();
    for _ in 0..k {
        if flag() {
            let i = choose(n + 1); let j = i + choose(n + 1 - i);
            ops.push(TextEditOp::Copy(TextRange::from_to(tu(i as u32), tu(j as u32))));
            exp.push_str(&s[i..j]);
        } else { let t = over(b"xy", choose(3)); exp.push_str(&t); ops.push(TextEditOp::Insert(TextBuf::from(t))); }
    }
    reach(1);
    let out = TextEdit { ops }.apply(buf.as_text()).to_string();
    assert(out == exp, 1);
    obs_str(&out);
}

fn c03_misfit() {
    // an edit built for one text and applied to a shorter one is refused
    let n = param(0) as usize;
    let s = ascii(n);
    let buf = TextBuf::from(s.as_str());
    let mut b = TextEditBuilder::new(buf.as_text());
    let i = choose(n + 1); let j = i + choose(n + 1 - i);
    // it must keep something at the end of the text
    let mut keep = n;
    if flag() { b.replace(TextRange::from_to(tu(i as u32), tu(j as u32)), over(b"xy", choose(2))); if j == n { keep = i } }
    let e = b.build();
    let m = choose(n);
    assume(m < keep);
    let short = TextBuf::from(&s[..m]);
    reach(1);
    expect_panic(true);
    let _ = e.apply(short.as_text());
    must_not_return(1);
}

fn c04_eq() {
    // two views, of different buffers and at different positions
    let n = param(0) as usize;
    let (s, r) = (utf8(n, &['é']), utf8(n, &['é']));
    let (a, b) = (TextBuf::from(s.clone()), TextBuf::from(r.clone()));
    let (sl, sh) = { let lo = boundary(&s); (lo, boundary_from(&s, lo)) };
    let (rl, rh) = { let lo = boundary(&r); (lo, boundary_from(&r, lo)) };
    let (x, y) = (view(&a, sl, sh), view(&b, rl, rh));
    let (p, q) = (&s[sl..sh], &r[rl..rh]);
    let same = p.as_bytes() == q.as_bytes();
    assert((x == y) == same && (y == x) == same && (x != y) != same, 1);
    assert((x == q) == same && (p == y) == same && (q == x) == same, 2);
    let (bx, by) = (TextBuf::from(x), TextBuf::from(q));
    assert((bx == *q) == same && (*q == bx) == same && (bx == q) == same && (q == bx) == same, 3);
    assert((by == *p) == same, 4);
    let o = p.as_bytes().cmp(q.as_bytes());
    assert(x.cmp(&y) == o && x.partial_cmp(&y) == Some(o) && x.partial_cmp(&q) == Some(o), 5);
    assert(y.cmp(&x) == o.reverse(), 6);
    assert((x.cmp(&y) == Ordering::Equal) == (x == y), 7);
    if same { reach(1); assert(digest(&x) == digest(&y), 8); if sl != rl { reach(2); } }
    obs(same as u64); obs(ord(Some(o)) as u64);
}
fn c04_hash() {
    // equal views hash alike whatever buffer they sit in
    let n = param(0) as usize;
    let s = ascii(n);
    let big = format!("{}{}{}", "p", s, "q");
    let (a, b) = (TextBuf::from(s.clone()), TextBuf::from(big));
    let (x, y) = (view(&a, 0, n), view(&b, 1, n + 1));
    assert(x == y && x.cmp(&y) == Ordering::Equal, 1);
    let (dx, dy) = (digest(&x), digest(&y));
    assert(dx.len() == dy.len() && dx == dy, 2);
    reach(1);
    obs(hash_bytes(&dx));
}
}
