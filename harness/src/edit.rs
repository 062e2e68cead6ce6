//! Editor services that work on any language: extending the selection, swapping comma-separated items.
use crate::rt::*;
use crate::tree::{shadow, Ev, Sh};
use fall_editor::EditorFileImpl;
use fall_tree::{tu, File, Language, LanguageImpl, Metrics, NodeType, NodeTypeInfo, Text, TextEdit, TextRange, TextUnit, TreeBuilder};
use std::any::Any;
fn u(x: TextUnit) -> usize { let r: u32 = x.into(); r as usize }
const WORD: u32 = 2; const COMMA: u32 = 3; const WS: u32 = 4;
struct Scripted(Vec<Ev>);
impl LanguageImpl for Scripted {
    fn parse(&self, _: Text, _: &Metrics, b: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        for e in self.0.iter() {
            match *e { Ev::Leaf(t, l) => b.leaf(NodeType(t), tu(l)), Ev::Start(t) => b.start_internal(NodeType(t)), Ev::Finish => b.finish_internal() }
        }
        None
    }
    fn reparse(&self, _: &dyn Any, _: &TextEdit, _: Text, _: &Metrics, _: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> { unreachable!() }
    fn node_type_info(&self, t: NodeType) -> NodeTypeInfo { NodeTypeInfo { name: "N", whitespace_like: t.0 == WS } }
}
struct Ed(File);
impl EditorFileImpl for Ed {
    fn parse(_: &str) -> Self { unreachable!() }
    fn edit(&self, _: &TextEdit) -> Self { unreachable!() }
    fn syntax_tree(&self) -> String { String::new() }
    fn file(&self) -> &File { &self.0 }
}
/// A tree of `k` leaves and inner nodes with its text.
fn scripted(k: usize, depth: usize) -> (Vec<Ev>, String) {
    let mut s = vec![Ev::Start(1)]; let mut t = String::new(); let (mut open, mut left) = (1, k);
    while left > 0 {
        let c = choose(9);
        let l = match c { 0 => "a", 1 => "bc", 2 => "", 3 => ",", 4 => " ", 5 => "\n", 6 => " \n ", _ => "" };
        if c <= 6 {
            s.push(Ev::Leaf(if c < 3 { WORD } else if c == 3 { COMMA } else { WS }, l.len() as u32)); t.push_str(l); left -= 1
        } else if c == 7 { assume(open < depth); s.push(Ev::Start(5 + choose(param(1) as usize) as u32)); open += 1; left -= 1 }
        else { assume(open > 1); s.push(Ev::Finish); open -= 1 }
    }
    for _ in 0..open { s.push(Ev::Finish) }
    (s, t)
}
fn leaf(n: &Sh) -> bool { n.children.is_empty() && n.start < n.end }
/// the smallest node that is larger than [a, b) and covers it
fn larger(sh: &[Sh], a: u32, b: u32, strictly: bool) -> Option<(u32, u32)> {
    let mut best: Option<(u32, u32)> = None;
    for n in sh {
        if n.start <= a && b <= n.end && !(strictly && n.start == a && n.end == b) && best.map_or(true, |x| n.end - n.start < x.1 - x.0) { best = Some((n.start, n.end)) }
    }
    best
}
fn r2(r: TextRange) -> (u32, u32) { (u(r.start()) as u32, u(r.end()) as u32) }
crate::entries! {
fn ed_extend() {
    let (s, t) = scripted(param(0) as usize, 4);
    let sh = shadow(&s);
    let f = Ed(Language::new(Scripted(s)).parse(t.clone()));
    let (a, b) = (between(0, t.len()) as u32, between(0, t.len()) as u32); assume(a < b);
    let got = f.extend_selection(TextRange::from_to(tu(a), tu(b))).map(r2);
    assert(got == larger(&sh, a, b, true), 1);
    match got { Some(x) => { reach(1); obs(x.0 as u64); obs(x.1 as u64) } None => { reach(2); assert(a == 0 && b as usize == t.len(), 2) } }
}
fn ed_caret() {
    let (s, t) = scripted(param(0) as usize, 3);
    let sh = shadow(&s);
    let f = Ed(Language::new(Scripted(s)).parse(t.clone()));
    let o = conc(between(0, t.len()) as u64) as u32;
    let got = f.extend_selection(TextRange::from_len(tu(o), tu(0))).map(r2);
    let touching: Vec<&Sh> = sh.iter().filter(|n| leaf(n) && n.start <= o && o <= n.end).collect();
    let want = match touching.iter().find(|n| n.ty != WS) {
        Some(n) => { reach(1); Some((n.start, n.end)) }
        None => match touching.first() {
            None => { reach(2); None }
            Some(n) => {
                let (ws, rest) = (&t[n.start as usize..n.end as usize], &t[o as usize..n.end as usize]);
                let line = t[n.end as usize..].find('\n');
                // in the indentation of a line: what covers the rest of that line
                if ws.contains('\n') && !rest.contains('\n') && line.map_or(false, |l| l > 0) { reach(3); larger(&sh, n.end, n.end + line.unwrap() as u32, false) } else { Some((n.start, n.end)) }
            }
        },
    };
    let skip = touching.iter().all(|n| n.ty == WS) && touching.first().map_or(false, |n| t[n.end as usize..].starts_with('\n'));
    if !skip { assert(got == want, 1) } else { let g = got.unwrap(); assert(g.0 <= o && o <= g.1 && g.0 < g.1, 2) }
    if let Some(x) = got { obs(x.0 as u64); obs(x.1 as u64) }
}
fn ed_swap() {
    let (s, t) = scripted(param(0) as usize, 3);
    let sh = shadow(&s);
    let f = Ed(Language::new(Scripted(s)).parse(t.clone()));
    let o = conc(between(0, t.len()) as u64) as u32;
    let r = TextRange::from_len(tu(o), tu(0));
    let acts = { let mut v = vec![]; fall_editor::actions::default_context_actions(f.file(), r, &mut v); v };
    let got = fall_editor::actions::apply_default_context_action(f.file(), r, "Swap").unwrap();
    assert(acts.contains(&"Swap") == got.is_some(), 1);
    // the comma at the offset, the one on the left first, and its neighbours in its list
    let comma = sh.iter().enumerate().find(|(_, n)| leaf(n) && n.start <= o && o <= n.end && n.end - n.start == 1 && t.as_bytes()[n.start as usize] == b',').map(|x| x.0);
    let want = comma.and_then(|c| {
        let p = sh[c].parent.unwrap();
        let at = sh[p].children.iter().position(|&x| x == c).unwrap();
        let l = sh[p].children[..at].iter().rev().find(|&&x| sh[x].ty != WS)?;
        let r = sh[p].children[at + 1..].iter().find(|&&x| sh[x].ty != WS)?;
        if sh[*l].ty == sh[*r].ty { Some((&sh[*l], &sh[*r])) } else { None }
    });
    match (want, got) {
        (None, None) => reach(1),
        (Some((l, r)), Some(e)) => {
            reach(2);
            let p = |a: u32, b: u32| &t[a as usize..b as usize];
            let w = format!("{}{}{}{}{}", p(0, l.start), p(r.start, r.end), p(l.end, r.start), p(l.start, l.end), p(r.end, t.len() as u32));
            let g = e.apply(f.file().text()).as_text().to_string();
            obs_str(&g);
            assert(g == w, 2);
        }
        _ => assert(false, 3),
    }
}
}
