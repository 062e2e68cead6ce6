//! lang_json: totality, losslessness, and the tree of every well-formed document.
use crate::langs::*;
use crate::rt::*;
use fall_tree::{NodeType, ERROR};
use lang_json::*;
const TOKS: &[&str] = &["{", "}", "[", "]", ":", ",", "\"k\"", "1", " "];
const TYPES: &[NodeType] = &[LBRACE, RBRACE, LBRACK, RBRACK, COLON, COMMA, STRING, NUMBER];
/// Recursive-descent reference: the tree of a well-formed document over TOKS, or None.
struct P<'a> { t: &'a [(usize, u32, u32)], p: usize, out: Vec<Ev> }
impl<'a> P<'a> {
    fn peek(&self) -> usize { if self.p < self.t.len() { self.t[self.p].0 } else { 99 } }
    fn eat(&mut self, k: usize) -> Option<()> { if self.peek() != k { return None } let (k, a, b) = self.t[self.p]; self.out.push((0, TYPES[k], a, b)); self.p += 1; Some(()) }
    fn open(&mut self, t: NodeType) { self.out.push((1, t, 0, 0)) }
    fn close(&mut self) { self.out.push((2, ERROR, 0, 0)) }
    fn value(&mut self) -> Option<()> {
        match self.peek() {
            0 => self.object(), 2 => self.array(),
            k if k == 6 || k == 7 => { self.open(PRIMITIVE); self.eat(k)?; self.close(); Some(()) }
            _ => None,
        }
    }
    fn object(&mut self) -> Option<()> {
        self.open(OBJECT); self.eat(0)?;
        if self.peek() != 1 { loop { self.open(FIELD); self.eat(6)?; self.eat(4)?; self.value()?; self.close(); if self.peek() == 5 { self.eat(5)?; continue } break } }
        self.eat(1)?; self.close(); Some(())
    }
    fn array(&mut self) -> Option<()> {
        self.open(ARRAY); self.eat(2)?;
        if self.peek() != 3 { loop { self.value()?; if self.peek() == 5 { self.eat(5)?; continue } break } }
        self.eat(3)?; self.close(); Some(())
    }
    fn file(mut self) -> Option<Vec<Ev>> {
        self.open(FILE);
        match self.peek() { 0 => self.object()?, 2 => self.array()?, _ => return None }
        if self.p < self.t.len() { return None }
        self.close(); Some(self.out)
    }
}
fn wellformed(v: &[usize]) -> Option<Vec<Ev>> {
    let mut t = vec![]; let mut pos = 0;
    for &k in v { let l = TOKS[k].len() as u32; if k < 8 { t.push((k, pos, pos + l)) } pos += l }
    P { t: &t, p: 0, out: vec![] }.file()
}
/// The language, with its lexer and grammar tables built before any input is symbolic.
fn warm() -> &'static fall_tree::Language { let l = language(); l.parse(r#"{"a": [1, null, true]} !"#); l }
crate::entries! {
fn json_bytes() { let l = warm();
    let t = ascii(param(0) as usize);
    let f = any_text(l, t);
    if !has_error(&f) { reach(1) }
}
fn json_tokens() { let l = warm();
    // error-free exactly when well-formed, and then the expected tree
    let n = param(0) as usize;
    let pre: &[usize] = match param(1) { 0 => &[], 1 => &[2], 2 => &[0, 6, 4], _ => &[2, 0, 6, 4] };
    let post: &[usize] = match param(1) { 0 => &[], 1 => &[3], 2 => &[1], _ => &[1, 3] };
    let mut v = pre.to_vec(); for _ in 0..n { v.push(choose(TOKS.len())) } v.extend(post);
    // adjacent numbers would merge into one token
    for w in v.windows(2) { assume(!(w[0] == 7 && w[1] == 7)) }
    let text: String = v.iter().map(|&k| TOKS[k]).collect();
    let f = any_text(l, text);
    let want = wellformed(&v);
    let mut got = vec![]; flat(f.root(), false, &mut got);
    match want { Some(w) => { reach(1); assert(got == w, 1) } None => { reach(2); assert(has_error(&f), 2) } }
}
fn json_edit() { let l = warm();
    piece_edit(l, &["{", "}", "[", "]", ":", ",", "\"k\"", "1", "null", " ", "!"], if param(3) == 1 { "[" } else { "" }, if param(3) == 1 { "]" } else { "" }, param(0) as usize, param(1) as usize, param(2) as usize);
}
}
