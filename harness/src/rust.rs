//! The Rust grammar: totality, losslessness, incremental reparsing.
use crate::langs::*;
use crate::rt::*;
use fall_tree::{tu, Node, NodeType, TextEditBuilder};
use lang_rust_syntax::*;
use lang_rust_syntax::lang_rust;
const ITEMS: &[&str] = &["fn ", "f ", "(", ")", "{", "}", ";", "struct ", "mod ", "use ", "pub ", "#[a]", "::", ",", "!", ":", "<", ">", "impl ", "extern "];
const EXPRS: &[&str] = &["a ", "1 ", "(", ")", "{", "}", ";", "+", "-", "*", ".", "&", "|", "if ", "match ", "=> ", "let ", "= ", "::", "<", ">", ",", "?", "!", "..", "return ", "[", "]", "as ", "'x "];
const FEW: &[&str] = &["fn ", "f ", "()", "{", "}", ";", "mod ", "pub ", "#[a]", "f!{}"];
/// The language, with its lexer and grammar tables built before any input is symbolic.
fn warm() -> &'static fall_tree::Language { let l = lang_rust(); l.parse(r##"#[a] pub fn f(x: &i32) -> X<'a> { let y = 1 + a.b(); if x => { "s" } } /* */ // !"##); l }
/// Rust's binary operators by precedence (The Rust Reference, "Expression precedence"), with the node type of each level.
const BIN: &[(&str, u32)] = &[("*", 11), ("+", 10), ("<<", 9), ("&", 8), ("^", 7), ("|", 6), ("==", 5), ("&&", 4), ("||", 3), ("..", 2), ("=", 1),
    ("/", 11), ("%", 11), ("-", 10), (">>", 9), ("!=", 5), ("<", 5), (">", 5), ("<=", 5), (">=", 5), ("...", 2), ("+=", 1), ("-=", 1), ("*=", 1), ("/=", 1), ("%=", 1), ("&=", 1), ("|=", 1), ("^=", 1), ("<<=", 1), (">>=", 1)];
fn level(k: u32) -> NodeType { match k { 11 => PRODUCT_EXPR, 10 => SUM_EXPR, 9 => BIT_SHIFT, 8 => BIT_AND, 7 => BIT_XOR, 6 => BIT_OR, 5 => COMPARISON, 4 => LOGICAL_AND, 3 => LOGICAL_OR, 2 => RANGE_EXPR, _ => ASSIGNMENT_EXPR } }
const PRE: &[(&str, NodeType)] = &[("-", NEGATION_EXPR), ("*", DEREFERENCE_EXPR), ("&", REFERENCE_EXPR), ("!", NOT_EXPR), ("&mut", REFERENCE_EXPR)];
const POST: &[(&str, NodeType)] = &[("?", TRY_EXPR), (".f", FIELD_EXPR), ("()", CALL_EXPR), ("[i]", INDEX_EXPR), (".m()", METHOD_CALL_EXPR), (" as T", CAST_EXPR)];
type Span = (NodeType, u32, u32);
/// Operands with their own spans and nodes, and the operators between them; nodes of the whole, and whether Rust accepts the chain.
struct Chain<'a> { ends: &'a [(u32, u32)], ops: &'a [u32], i: usize, out: Vec<Span>, ok: bool }
impl<'a> Chain<'a> {
    /// -> (start, end, level of the top operator)
    fn expr(&mut self, min: u32) -> (u32, u32, u32) {
        let (s, mut e) = self.ends[self.i]; let mut top = 99;
        while self.i < self.ops.len() && self.ops[self.i] >= min {
            let l = self.ops[self.i]; self.i += 1;
            let r = self.expr(l + 1);
            if l == top && (l == 5 || l == 2 || l == 1) { self.ok = false }
            e = r.1; top = l; self.out.push((level(l), s, e));
        }
        (s, e, top)
    }
}
fn spans(n: Node, out: &mut Vec<Span>) {
    let t = n.ty();
    if (1..12).any(|k| level(k) == t) || PRE.iter().any(|p| p.1 == t) || POST.iter().any(|p| p.1 == t) { out.push((t, u(n.range().start()), u(n.range().end()))) }
    for c in n.children() { spans(c, out) }
}
fn sort(v: &mut Vec<Span>) { v.sort_by_key(|x| (x.1, x.2, (x.0).0)) }
crate::entries! {
fn rust_raw() { let l = warm();
    let (k, m) = (choose(34), choose(34));
    let s = format!("r{}\"x\"{} ", "#".repeat(k), "#".repeat(m));
    let f = any_text(l, s);
    let mut v = vec![]; flat(f.root(), true, &mut v);
    let lit = v.iter().find(|e| e.0 == 0).map(|e| (e.1, e.2, e.3));
    if m >= k { reach(1); assert(lit == Some((RAW_STRING, 0, (1 + k + 3 + k) as u32)), 1) } else { reach(2); assert(lit.map_or(true, |l| l.0 != RAW_STRING), 2) }
}
fn rust_expr() { let l = warm();
    // n operands; number of binary operators to choose from; 1: each operand may have a prefix and a postfix operator
    let (n, nops, unary, ctx) = (param(0) as usize, param(1) as usize, param(2) == 1, param(3));
    let (pre, post) = match ctx { 0 => ("const C: T = ", ";"), 1 => ("fn f() { ", "; }"), 2 => ("fn f() { if ", " {} }"), _ => ("fn f() { g(", ") }") };
    let mut s = pre.to_string(); let mut ends = vec![]; let mut ops = vec![]; let mut nodes = vec![];
    let at = |s: &String| s.len() as u32;
    let mut cast = false;
    for i in 0..n {
        if i > 0 { let o = choose(nops); assume(!(cast && BIN[o].0.starts_with('<'))); ops.push(BIN[o].1); s.push(' '); s.push_str(BIN[o].0); s.push(' ') }
        let st = at(&s);
        let p = if unary { choose(PRE.len() + 1) } else { PRE.len() };
        if p < PRE.len() { s.push_str(PRE[p].0); s.push(' ') }
        let a = at(&s);
        s.push('a');
        let q = if unary { choose(POST.len() + 1) } else { POST.len() };
        if q < POST.len() { s.push_str(POST[q].0) }
        let e = at(&s);
        cast = q == 5;
        // a cast binds looser than the prefix operators, the other postfix operators tighter
        if p < PRE.len() { nodes.push((PRE[p].1, st, if cast { a + 1 } else { e })) }
        if q < POST.len() { nodes.push((POST[q].1, if cast { st } else { a }, e)) }
        ends.push((st, e));
    }
    s.push_str(post);
    let mut c = Chain { ends: &ends, ops: &ops, i: 0, out: nodes, ok: true };
    c.expr(1);
    // chains Rust itself rejects (comparisons, ranges), and chained assignments
    assume(c.ok);
    let mut want = c.out;
    let f = any_text(l, s);
    assert(!has_error(&f), 1);
    let mut got = vec![]; spans(f.root(), &mut got);
    if ctx == 3 { got.retain(|x| !(x.0 == CALL_EXPR && x.1 == 9)) }
    sort(&mut want); sort(&mut got);
    if got != want { print(&format!("{:?}\ngot  {:?}\nwant {:?}", f.text().to_string(), got, want)) }
    assert(got == want, 2);
    reach(1);
}
fn rust_assign() { let l = warm();
    // assignment is right-associative in Rust
    let f = any_text(l, "const C: T = a = b = c;".to_string());
    let mut got = vec![]; spans(f.root(), &mut got); sort(&mut got);
    assert(got == vec![(ASSIGNMENT_EXPR, 13, 22), (ASSIGNMENT_EXPR, 17, 22)], 1);
}
fn rust_raw_edit() { let l = warm();
    // text behind a token that turns it into the beginning of a longer one
    let f = l.parse("r## ".to_string());
    let mut b = TextEditBuilder::new(f.text()); b.insert(tu(3), "\"x\"##".to_string());
    check_edit(l, &f, b.build(), false);
}
fn rust_char_edit() { let l = warm();
    let f = l.parse("'{ ".to_string());
    let mut b = TextEditBuilder::new(f.text()); b.insert(tu(2), "'".to_string());
    check_edit(l, &f, b.build(), false);
}
fn rust_bytes() { let l = warm(); any_text(l, ascii(param(0) as usize)); reach(1) }
fn rust_tokens() { let l = warm();
    let (t, _) = pieces(if param(1) < 2 { ITEMS } else { EXPRS }, param(0) as usize);
    let t = match param(1) { 0 => t, 1 => format!("mod a {{{}}}", t), 2 => format!("fn a() {{{}}}", t), 3 => format!("fn a() {{ {{}} {}}}", t), _ => format!("type T = {};", t) };
    let f = any_text(l, t);
    if !has_error(&f) { reach(1) } else { reach(2) }
}
fn rust_edit() { let l = warm();
    let (pre, post) = match param(3) { 0 => ("", ""), 1 => ("mod a {", "} fn b(){}"), 3 => ("mod a {fn x(){}", "fn y(){}} fn b(){}"), _ => ("fn a(){} ", " fn b(){}") };
    piece_edit(l, if param(4) == 1 { FEW } else { ITEMS }, pre, post, param(0) as usize, param(1) as usize, param(2) as usize)
}
}
