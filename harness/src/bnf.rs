//! lang_bnf: totality, losslessness, and the tree of every well-formed grammar.
use crate::langs::*;
use crate::rt::*;
use fall_tree::{AstNode, NodeType, ERROR};
use lang_bnf::*;
const TOKS: &[&str] = &["a", "->", "|", "'t'", " "];
const TYPES: &[NodeType] = &[NONTERMINAL, ARROW, PIPE, TERMINAL];
fn reference(v: &[usize]) -> Option<Vec<Ev>> {
    let mut t = vec![]; let mut pos = 0;
    for &k in v { let l = TOKS[k].len() as u32; if k < 4 { t.push((k, pos, pos + l)) } pos += l }
    let leaf = |i: usize| (0u8, TYPES[t[i].0], t[i].1, t[i].2);
    let at = |i: usize| if i < t.len() { t[i].0 } else { 99 };
    let (o, c) = (|ty| (1u8, ty, 0, 0), (2u8, ERROR, 0, 0));
    let mut out = vec![o(GRAMMAR)]; let mut i = 0;
    while i < t.len() {
        if at(i) != 0 || at(i + 1) != 1 { return None }
        out.push(o(PROD)); out.push(leaf(i)); out.push(leaf(i + 1)); i += 2;
        out.push(o(PROD_BODY));
        loop {
            out.push(o(ALT)); let mut n = 0;
            while (at(i) == 0 && at(i + 1) != 1) || at(i) == 3 { out.push(o(SYMBOL)); out.push(leaf(i)); out.push(c); i += 1; n += 1 }
            if n == 0 { return None }
            out.push(c);
            if at(i) == 2 { out.push(leaf(i)); i += 1; continue }
            break;
        }
        out.push(c); out.push(c);
    }
    out.push(c);
    Some(out)
}
/// The language, with its lexer and grammar tables built before any input is symbolic.
fn warm() -> &'static fall_tree::Language { let l = language(); l.parse("a -> 'b' | c !"); l }
crate::entries! {
fn bnf_bytes() { let l = warm(); let f = any_text(l, ascii(param(0) as usize)); if !has_error(&f) { reach(1) } }
fn bnf_tokens() { let l = warm();
    let n = param(0) as usize;
    let mut v = if param(1) == 1 { vec![0, 1] } else { vec![] };
    for _ in 0..n { v.push(choose(TOKS.len())) }
    for w in v.windows(2) { assume(!(w[0] == 0 && w[1] == 0)) }
    let text: String = v.iter().map(|&k| TOKS[k]).collect();
    let f = any_text(l, text);
    let mut got = vec![]; flat(f.root(), false, &mut got);
    match reference(&v) { Some(w) => { reach(1); assert(got == w, 1) } None => { reach(2); assert(has_error(&f), 2) } }
    // the typed view finds what the tree holds
    let g = Grammar::wrap(f.root()).unwrap();
    let prods: Vec<Prod> = g.productions().collect();
    assert(prods.len() == f.root().children().filter(|c| c.ty() == PROD).count(), 3);
    for p in prods { assert(p.alts().count() == p.node().children().filter(|c| c.ty() == ALT).count(), 4); let _ = p.head(); }
}
fn bnf_edit() { let l = warm(); piece_edit(l, &["a", "->", "|", "'t'", " ", "!", "-"], "", "", param(0) as usize, param(1) as usize, param(2) as usize) }
}
