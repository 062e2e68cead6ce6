//! C05 tree construction, C06/C07 search by offset/range, C08 navigation and traversal, C09 tree edits.
use crate::rt::*;
use fall_tree::search::{self, Direction, LeafAtOffset};
use fall_tree::{tu, walk_tree, AstChildren, AstNode, File, FileEdit, Language, LanguageImpl, Metrics, Node, NodeType, NodeTypeInfo, Text, TextEdit, TextRange, TextUnit, TreeBuilder};
use std::any::Any;

fn u(x: TextUnit) -> u32 { x.into() }
#[derive(Clone, Copy)]
pub enum Ev { Leaf(u32, u32), Start(u32), Finish }
/// A language whose "parser" replays a fixed construction script.
struct Scripted(Vec<Ev>);
impl LanguageImpl for Scripted {
    fn parse(&self, _: Text, _: &Metrics, b: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        for e in self.0.iter() {
            match *e { Ev::Leaf(t, l) => b.leaf(NodeType(t), tu(l)), Ev::Start(t) => b.start_internal(NodeType(t)), Ev::Finish => b.finish_internal() }
        }
        None
    }
    fn reparse(&self, _: &dyn Any, _: &TextEdit, _: Text, _: &Metrics, _: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> { unreachable!() }
    fn node_type_info(&self, _: NodeType) -> NodeTypeInfo { NodeTypeInfo { name: "N", whitespace_like: false } }
}
pub struct Sh { pub ty: u32, pub parent: Option<usize>, pub children: Vec<usize>, pub start: u32, pub end: u32 }
/// The tree the script denotes, computed directly from its meaning.
pub fn shadow(script: &[Ev]) -> Vec<Sh> {
    let mut v: Vec<Sh> = vec![]; let mut st: Vec<usize> = vec![]; let mut pos = 0;
    for e in script {
        match *e {
            Ev::Start(t) | Ev::Leaf(t, _) => {
                let p = st.last().cloned();
                let id = v.len();
                let l = if let Ev::Leaf(_, l) = *e { l } else { 0 };
                v.push(Sh { ty: t, parent: p, children: vec![], start: pos, end: pos + l });
                if let Some(p) = p { v[p].children.push(id) }
                if let Ev::Leaf(..) = *e { pos += l } else { st.push(id) }
            }
            Ev::Finish => { let id = st.pop().unwrap(); v[id].end = pos; }
        }
    }
    v
}
/// An arbitrary well-nested script with one root and `k` further nodes; at most `depth` levels. Leaf lengths
/// 0..=maxlen: symbolic when `symlen`.
pub fn script(k: usize, maxlen: usize, ntypes: usize, symlen: bool, depth: usize) -> Vec<Ev> {
    let mut s = vec![Ev::Start(1)]; let mut open = 1; let mut left = k;
    while left > 0 {
        let c = choose(3);
        match c {
            0 => { let t = 1 + range(ntypes as u64) as u32; let l = if symlen { range(maxlen as u64 + 1) as u32 } else { choose(maxlen + 1) as u32 }; s.push(Ev::Leaf(t, l)); left -= 1; }
            1 => { assume(open < depth); let t = 1 + range(ntypes as u64) as u32; s.push(Ev::Start(t)); open += 1; left -= 1; }
            _ => { assume(open > 1); s.push(Ev::Finish); open -= 1; }
        }
    }
    for _ in 0..open { s.push(Ev::Finish) }
    s
}
pub fn text_for(sh: &[Sh]) -> String { let mut s = String::new(); for i in 0..sh[0].end { s.push((b'a' + (i % 26) as u8) as char) } s }
pub fn file(s: &[Ev], text: String) -> File { Language::new(Scripted(s.to_vec())).parse(text) }
/// nodes of the real tree in the shadow's numbering (pre-order), checking the shape on the way
pub fn nodes<'f>(f: &'f File, sh: &[Sh]) -> Vec<Node<'f>> {
    let mut out = vec![];
    fn go<'f>(n: Node<'f>, out: &mut Vec<Node<'f>>) { out.push(n); for c in n.children() { go(c, out) } }
    go(f.root(), &mut out);
    assert(out.len() == sh.len(), 200);
    out
}
fn depth_of(sh: &[Sh], mut i: usize) -> usize { let mut d = 0; while let Some(p) = sh[i].parent { d += 1; i = p } d }
fn is_anc(sh: &[Sh], a: usize, mut i: usize) -> bool { loop { if i == a { return true } match sh[i].parent { Some(p) => i = p, None => return false } } }

#[derive(Clone, Copy)]
struct A<'f>(Node<'f>);
impl<'f> AstNode<'f> for A<'f> { fn wrap(n: Node<'f>) -> Option<Self> { if n.ty() == NodeType(2) { Some(A(n)) } else { None } } fn node(self) -> Node<'f> { self.0 } }

crate::entries! {
fn c05_build() {
    let s = script(param(0) as usize, 2, 2, true, 4);
    let sh = shadow(&s);
    let f = file(&s, "abcdefghijklmnopqrstuvwxyz".to_string());
    let ns = nodes(&f, &sh);
    for (i, n) in ns.iter().enumerate() {
        let e = &sh[i];
        assert(n.ty() == NodeType(e.ty), 1);
        assert(u(n.range().start()) == e.start && u(n.range().end()) == e.end, 2);
        assert(n.parent() == e.parent.map(|p| ns[p]), 3);
        let cs: Vec<Node> = n.children().collect();
        assert(cs.len() == e.children.len() && cs.iter().zip(e.children.iter()).all(|(c, &j)| *c == ns[j]), 4);
        // children tile their parent
        let mut pos = n.range().start();
        for c in cs.iter() { assert(c.range().start() == pos, 5); pos = c.range().end(); }
        if !cs.is_empty() { reach(1); assert(pos == n.range().end(), 6); }
        assert(n.file().root() == f.root(), 7);
    }
    assert(f.root().parent().is_none() && u(f.root().range().start()) == 0, 8);
    obs(ns.len() as u64); obs(u(f.root().range().end()) as u64);
}
fn c05_text() {
    // node texts are the pieces of the file's text; leaves spell the whole text
    let s = script(param(0) as usize, 2, 1, false, 3);
    let sh = shadow(&s);
    let n = sh[0].end as usize;
    let t = ascii(n);
    let f = file(&s, t.clone());
    let ns = nodes(&f, &sh);
    let mut all = String::new();
    for (i, nd) in ns.iter().enumerate() {
        assert(nd.text() == &t[sh[i].start as usize..sh[i].end as usize], 1);
        if nd.children().next().is_none() { all.push_str(&nd.text().to_string()); }
    }
    assert(all == t && f.text() == t.as_str(), 2);
    if n > 1 { reach(1); }
    obs_str(&all);
}
fn c05_malformed() {
    // construction scripts that do not describe one tree are rejected
    let k = param(0) as usize;
    let mut s = vec![]; let mut open: i32 = 0; let mut bad = false; let mut roots = 0;
    for _ in 0..choose(k + 1) {
        match choose(3) {
            0 => { if open == 0 { bad = true } s.push(Ev::Leaf(1, range(3) as u32)); }
            1 => { s.push(Ev::Start(1)); if open == 0 { roots += 1 } open += 1; }
            _ => { if open == 0 { bad = true } open -= 1; s.push(Ev::Finish); }
        }
        if bad { break }
    }
    assume(bad || open > 0 || roots != 1);
    reach(1);
    if roots > 1 { reach(2) }
    expect_panic(true);
    let _ = file(&s, "abcdef".to_string());
    must_not_return(1);
}

fn c06_leaf() {
    let s = script(param(0) as usize, 2, 1, true, 4);
    let sh = shadow(&s);
    let f = file(&s, "abcdefghijklmnopqrstuvwxyz".to_string());
    let ns = nodes(&f, &sh);
    let total = sh[0].end;
    let off = range(param(0) * 2 + 1) as u32;
    assume(off <= total);
    let r = search::find_leaf_at_offset(f.root(), tu(off));
    // the non-empty leaves that touch the offset
    let mut touch = vec![];
    for (i, e) in sh.iter().enumerate() { if e.children.is_empty() && e.start < e.end && e.start <= off && off <= e.end { touch.push(ns[i]) } }
    match r {
        LeafAtOffset::None => { reach(1); assert(total == 0 && touch.is_empty(), 1); }
        LeafAtOffset::Single(n) => { reach(2); assert(touch.len() == 1 && touch[0] == n, 2); assert(search::is_leaf(n), 3); }
        LeafAtOffset::Between(a, b) => { reach(3); assert(touch.len() == 2 && touch[0] == a && touch[1] == b, 4); assert(a.range().end() == tu(off) && b.range().start() == tu(off), 5); }
    }
    assert(r.left_biased() == touch.first().cloned() && r.right_biased() == touch.last().cloned(), 6);
    let it: Vec<Node> = r.collect();
    assert(it == touch, 7);
    // no children and not empty = leaf
    for (i, e) in sh.iter().enumerate() { assert(search::is_leaf(ns[i]) == (e.children.is_empty() && e.start < e.end), 8); }
    obs(touch.len() as u64); obs(off as u64);
}
fn c06_subtree() {
    // the search can start at any node; an offset outside that node is rejected
    let s = script(param(0) as usize, 2, 1, false, 4);
    let sh = shadow(&s);
    let f = file(&s, text_for(&sh));
    let ns = nodes(&f, &sh);
    let i = choose(sh.len());
    let off = sym(32) as u32;
    if sh[i].start <= off && off <= sh[i].end {
        reach(1);
        let r: Vec<Node> = search::find_leaf_at_offset(ns[i], tu(off)).collect();
        let mut touch = vec![];
        for (j, e) in sh.iter().enumerate() { if e.children.is_empty() && is_anc(&sh, i, j) && e.start < e.end && e.start <= off && off <= e.end { touch.push(ns[j]) } }
        assert(r == touch, 1);
        obs(r.len() as u64);
    } else {
        reach(2);
        expect_panic(true);
        let _ = search::find_leaf_at_offset(ns[i], tu(off));
        must_not_return(2);
    }
}
fn c07_cover() {
    let s = script(param(0) as usize, 2, 1, true, 4);
    let sh = shadow(&s);
    let f = file(&s, "abcdefghijklmnopqrstuvwxyz".to_string());
    let ns = nodes(&f, &sh);
    let total = sh[0].end;
    let a = range(param(0) * 2 + 1) as u32; let b = range(param(0) * 2 + 1) as u32;
    assume(a <= b && b <= total);
    let n = search::find_covering_node(f.root(), TextRange::from_to(tu(a), tu(b)));
    let k = ns.iter().position(|x| *x == n).unwrap();
    assert(sh[k].start <= a && b <= sh[k].end, 1);
    if a < b {
        // the deepest node that covers the range
        reach(1);
        for (j, e) in sh.iter().enumerate() { if e.start <= a && b <= e.end { assert(is_anc(&sh, j, k), 2); } }
    } else if total > 0 {
        // an empty range: the deepest node that covers both leaves touching the position
        reach(2);
        let t: Vec<usize> = (0..sh.len()).filter(|&j| sh[j].children.is_empty() && sh[j].start < sh[j].end && sh[j].start <= a && a <= sh[j].end).collect();
        for j in 0..sh.len() { if t.iter().all(|&x| is_anc(&sh, j, x)) { assert(is_anc(&sh, j, k), 3); } }
        assert(t.iter().all(|&x| is_anc(&sh, k, x)), 4);
    } else { reach(3); assert(k == 0, 5); }
    obs(k as u64);
}
fn c07_outside() {
    let s = script(param(0) as usize, 2, 1, false, 3);
    let sh = shadow(&s);
    let f = file(&s, text_for(&sh));
    let (a, b) = (sym(32) as u32, sym(32) as u32);
    assume(a <= b && b > sh[0].end);
    reach(1);
    expect_panic(true);
    let _ = search::find_covering_node(f.root(), TextRange::from_to(tu(a), tu(b)));
    must_not_return(1);
}
fn c08_navigate() {
    let s = script(param(0) as usize, 1, 1, false, 4);
    let sh = shadow(&s);
    let f = file(&s, text_for(&sh));
    let ns = nodes(&f, &sh);
    // the same tree again: its nodes are others
    let f2 = file(&s, text_for(&sh));
    let ns2 = nodes(&f2, &sh);
    for (i, n) in ns.iter().enumerate() {
        let e = &sh[i];
        assert(search::is_leaf(*n) == (e.children.is_empty() && e.start < e.end), 5);
        assert(ns2.iter().all(|m| m != n), 6);
        // ancestors: the node itself up to the root
        let mut exp = vec![*n]; let mut j = i; while let Some(p) = sh[j].parent { exp.push(ns[p]); j = p }
        assert(search::ancestors(*n).collect::<Vec<_>>() == exp, 1);
        assert(exp.len() == depth_of(&sh, i) + 1, 2);
        // siblings
        let (l, r) = match e.parent { None => (None, None), Some(p) => {
            let c = &sh[p].children; let k = c.iter().position(|&x| x == i).unwrap();
            (if k > 0 { Some(ns[c[k - 1]]) } else { None }, if k + 1 < c.len() { Some(ns[c[k + 1]]) } else { None }) } };
        if l.is_some() && r.is_some() { reach(1); }
        assert(search::sibling(*n, Direction::Left) == l && search::sibling(*n, Direction::Right) == r, 3);
        for (j, m) in ns.iter().enumerate() { assert((n == m) == (i == j), 4); }
    }
    obs(ns.len() as u64);
}
fn c08_traverse() {
    // every traversal visits each node of the subtree exactly once, in its documented order
    let s = script(param(0) as usize, 1, 2, false, 4);
    let sh = shadow(&s);
    let f = file(&s, text_for(&sh));
    let ns = nodes(&f, &sh);
    let i = choose(sh.len());
    let mut pre = vec![]; walk_tree(ns[i], |n| pre.push(ns.iter().position(|m| *m == n).unwrap()));
    let epre: Vec<usize> = (0..sh.len()).filter(|&j| is_anc(&sh, i, j)).collect();
    assert(pre == epre, 1);
    let mut post = vec![]; search::traversal::bottom_up(ns[i], |n| post.push(ns.iter().position(|m| *m == n).unwrap()));
    fn po(sh: &[Sh], i: usize, out: &mut Vec<usize>) { for &c in sh[i].children.iter() { po(sh, c, out) } out.push(i) }
    let mut epost = vec![]; po(&sh, i, &mut epost);
    assert(post == epost, 2);
    let sub: Vec<Node> = search::subtree(ns[i]).collect();
    assert(sub.len() == epost.len() && sub.iter().zip(epost.iter()).all(|(n, &j)| *n == ns[j]), 3);
    if epre.len() > 2 && i > 0 { reach(1); }
    obs(post.len() as u64);
}
fn c08_types() {
    // lookups by type return exactly the nodes of that type, in order
    let s = script(param(0) as usize, 1, 2, false, 3);
    let sh = shadow(&s);
    let f = file(&s, text_for(&sh));
    let ns = nodes(&f, &sh);
    let i = choose(sh.len());
    let ty = NodeType(2);
    let kids: Vec<Node> = sh[i].children.iter().filter(|&&c| sh[c].ty == 2).map(|&c| ns[c]).collect();
    assert(search::child_of_type(ns[i], ty) == kids.first().cloned(), 1);
    assert(search::children_of_type(ns[i], ty).collect::<Vec<_>>() == kids, 2);
    assert(AstChildren::<A>::new(ns[i].children()).map(|a| a.node()).collect::<Vec<_>>() == kids, 3);
    assert(search::ast::children_of_type::<A>(ns[i]).map(|a| a.node()).collect::<Vec<_>>() == kids, 4);
    fn po(sh: &[Sh], i: usize, out: &mut Vec<usize>) { for &c in sh[i].children.iter() { po(sh, c, out) } out.push(i) }
    let mut all = vec![]; po(&sh, i, &mut all);
    let desc: Vec<Node> = all.iter().filter(|&&c| sh[c].ty == 2).map(|&c| ns[c]).collect();
    assert(search::descendants_of_type(ns[i], ty) == desc, 5);
    assert(search::ast::descendants_of_type::<A>(ns[i]).iter().map(|a| a.node()).collect::<Vec<_>>() == desc, 6);
    // nearest enclosing node of the type
    let mut j = Some(i); let mut anc = None;
    while let Some(x) = j { if sh[x].ty == 2 { anc = Some(ns[x]); break } j = sh[x].parent }
    assert(search::ast::ancestor::<A>(ns[i]).map(|a| a.node()) == anc, 7);
    if desc.len() > 1 { reach(1); }
    obs(desc.len() as u64);
}
fn c08_at_offset() {
    let s = script(param(0) as usize, 2, 2, false, 3);
    let sh = shadow(&s);
    let f = file(&s, text_for(&sh));
    let ns = nodes(&f, &sh);
    let off = choose(sh[0].end as usize + 1) as u32;
    let r = search::ast::node_at_offset::<A>(f.root(), tu(off)).map(|a| a.node());
    let mut exp = None;
    for (i, e) in sh.iter().enumerate() { if exp.is_none() && e.children.is_empty() && e.start < e.end && e.start <= off && off <= e.end {
        let mut j = Some(i); while let Some(x) = j { if sh[x].ty == 2 { exp = Some(ns[x]); break } j = sh[x].parent } } }
    if exp.is_some() { reach(1); }
    assert(r == exp, 1);
    obs(exp.is_some() as u64);
}
fn c08_visitor() {
    // a visitor calls every matching handler, in registration order, bottom-up
    use fall_tree::visitor::{process_node, process_subtree_bottom_up, visitor};
    let s = script(param(0) as usize, 1, 2, false, 3);
    let sh = shadow(&s);
    let f = file(&s, text_for(&sh));
    let ns = nodes(&f, &sh);
    let id = |n: Node| ns.iter().position(|m| *m == n).unwrap();
    let v = || visitor(Vec::new())
        .visit_nodes(&[NodeType(1)], |n, acc: &mut Vec<(usize, u8)>| acc.push((id(n), 1)))
        .visit::<A, _>(|a, acc: &mut Vec<(usize, u8)>| acc.push((id(a.node()), 2)))
        .visit_nodes(&[NodeType(1), NodeType(2)], |n, acc: &mut Vec<(usize, u8)>| acc.push((id(n), 3)));
    let one = |i: usize, out: &mut Vec<(usize, u8)>| { out.push((i, if sh[i].ty == 1 { 1 } else { 2 })); out.push((i, 3)); };
    fn po(sh: &[Sh], i: usize, out: &mut Vec<usize>) { for &c in sh[i].children.iter() { po(sh, c, out) } out.push(i) }
    let mut order = vec![]; po(&sh, 0, &mut order);
    let mut exp = vec![]; for &i in order.iter() { one(i, &mut exp) }
    assert(process_subtree_bottom_up(f.root(), v()) == exp, 1);
    let i = choose(sh.len());
    let mut exp1 = vec![]; one(i, &mut exp1);
    assert(process_node(ns[i], v()) == exp1, 2);
    if exp.len() > 3 { reach(1); }
    obs(exp.len() as u64);
}

fn c09_edit() {
    // at most one operation per node, on arbitrary nodes of an arbitrary tree
    let s = script(param(0) as usize, param(2) as usize, 1, false, 4);
    let sh = shadow(&s);
    let t = text_for(&sh);
    let f = file(&s, t.clone());
    let ns = nodes(&f, &sh);
    let mut op = vec![0u8; sh.len()];
    for _ in 0..param(1) { let i = choose(sh.len()); assume(op[i] == 0); op[i] = 1 + choose(3) as u8; }
    let mut e = FileEdit::new(&f);
    let rep = |i: usize| format!("<{}>", i);
    for i in 0..sh.len() {
        match op[i] { 1 => e.delete(ns[i]), 2 => e.replace_with_text(ns[i], rep(i)), 3 => e.insert_text_after(ns[i], rep(i)), _ => () }
    }
    // reference: an edited node's text, outermost operation first
    fn render(sh: &[Sh], op: &[u8], t: &str, i: usize) -> String {
        match op[i] {
            1 => String::new(),
            2 => format!("<{}>", i),
            _ => {
                let mut s = String::new();
                if sh[i].children.is_empty() { s.push_str(&t[sh[i].start as usize..sh[i].end as usize]) }
                for &c in sh[i].children.iter() { s.push_str(&render(sh, op, t, c)) }
                if op[i] == 3 { s.push_str(&format!("<{}>", i)) }
                s
            }
        }
    }
    let exp = render(&sh, &op, &t, 0);
    let out = e.into_text_edit().apply(f.text()).to_string();
    assert(out == exp, 1);
    if op.iter().filter(|&&o| o > 0).count() > 1 && op[0] == 0 { reach(1); }
    obs_str(&out);
}
fn c09_substring() {
    let s = script(param(0) as usize, 2, 1, false, 4);
    let sh = shadow(&s);
    let t = text_for(&sh);
    let f = file(&s, t.clone());
    let n = t.len();
    let a = choose(n + 1); let b = a + choose(n + 1 - a);
    let mut e = FileEdit::new(&f);
    e.replace_substring(TextRange::from_to(tu(a as u32), tu(b as u32)), "<>".to_string());
    let out = e.into_text_edit().apply(f.text()).to_string();
    if a < b { reach(1); } else { reach(2); }
    assert(out == t[..a].to_string() + "<>" + &t[b..], 1);
    obs_str(&out);
}
fn c09_replace_node() {
    let s = script(param(0) as usize, 2, 1, false, 3);
    let sh = shadow(&s);
    let t = text_for(&sh);
    let f = file(&s, t.clone());
    let ns = nodes(&f, &sh);
    let (i, j) = (choose(sh.len()), choose(sh.len()));
    let mut e = FileEdit::new(&f);
    e.replace(ns[i], ns[j]);
    let out = e.into_text_edit().apply(f.text()).to_string();
    reach(1);
    assert(out == t[..sh[i].start as usize].to_string() + &t[sh[j].start as usize..sh[j].end as usize] + &t[sh[i].end as usize..], 1);
    obs_str(&out);
}
}
