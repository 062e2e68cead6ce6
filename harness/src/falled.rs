//! The grammar-file editor: every service of `FileWithAnalysis` on any text.
use crate::langs::*;
use crate::rt::*;
use fall_editor::EditorFileImpl;
use fall_tree::{tu, File, NodeType, TextRange};
use lang_fall::editor::FileWithAnalysis;
use lang_fall_syntax::{lang_fall, L_ANGLE, PIPE, R_ANGLE, WHITESPACE};
const TOKS: &[&str] = &["rule ", "a ", "{", "}", "|", "<", ">", "?", "*", "(", ")", ",", "'t'", "pub ", "#[a]", "tokenizer ", "ast ", "r\"x\"", "test ", "node ", ":", " "];
const CALLS: &[&str] = &["<", ">", "a ", "is_in ", "enter ", "prev_is ", "'t'", "{", "}", "|", "*", "eof ", "layer "];
const NODES: &[&str] = &["node ", "class ", "trait ", "a ", "t ", "{", "}", ":", ",", "?", ".", "*"];
const RULES: &[&str] = &["#[atom] ", "#[bin(1)] ", "#[prefix] ", "pub ", "rule ", "a ", "{ a }", "{}", "(a)", "{ a | 't' }", "test r\"\" "];
fn warm() { let l = lang_fall(); l.parse(r##"tokenizer { #[a] b r"x" } pub rule a { <b 'c'>? | d* } ast { node a : b {} } !"##); }
fn text() -> String {
    let n = param(0) as usize;
    match param(1) {
        0 => pieces(TOKS, n).0,
        1 => format!("tokenizer {{ t 't' }} rule a {{{}}} rule b(x) {{ x }}", pieces(TOKS, n).0),
        2 => format!("rule a {{{}}}", pieces(CALLS, n).0),
        3 => format!("tokenizer {{ t 't' }} ast {{{}}}", pieces(NODES, n).0),
        4 => format!("ast {{ node a {{{}}} }}", pieces(NODES, n).0),
        5 => format!("{} rule b {{ a }}", pieces(RULES, n).0),
        _ => format!("tokenizer {{{}}}", pieces(TOKS, n).0),
    }
}
pub fn open(s: &str) -> FileWithAnalysis { <FileWithAnalysis as EditorFileImpl>::parse(s) }
fn inside(r: TextRange, s: &str) -> bool { u(r.start()) <= u(r.end()) && u(r.end()) as usize <= s.len() }
pub fn obs_range(r: TextRange) { obs((u(r.start()) as u64) << 32 | u(r.end()) as u64) }
const FMT: &[&str] = &["a", " ", "  ", "\n", "|", "<", ">", "'t'", "{", "}", "?", "//c\n"];
/// The tree without its whitespace, each token with its text.
fn skeleton(f: &File) -> Vec<(u8, NodeType, String)> {
    let mut v = vec![]; flat(f.root(), true, &mut v);
    let t = f.text().to_string();
    v.into_iter().filter(|e| e.1 != WHITESPACE).map(|e| (e.0, e.1, t[e.2 as usize..e.3 as usize].to_string())).collect()
}
crate::entries! {
fn fe_views() { warm();
    let s = text(); let f = open(&s); 
    for (r, t) in f.highlight() { obs_range(r); obs_str(t.0);
        // an error without text is shown as one character
        assert(inside(r, &s) || t.0 == "error" && u(r.end()) == u(r.start()) + 1 && u(r.start()) as usize == s.len(), 1) }
    for d in f.diagnostics() { obs_range(d.range); obs_str(&d.message); assert(inside(d.range, &s), 2) }
    for n in f.structure() { obs_range(n.range); assert(inside(n.range, &s), 3) }
    obs_str(&f.syntax_tree());
    let e = f.reformat(); obs_str(&e.apply(f.file().text()).as_text().to_string());
    reach(1);
}
fn fe_offset() { warm();
    let s = text(); let f = open(&s);
    let o = tu(between(0, s.len()) as u32);
    match f.resolve_reference(o) { Some(r) => { reach(1); obs_range(r); assert(inside(r, &s), 1) } None => obs(0) }
    let v = f.find_usages(o); obs(v.len() as u64);
    for r in v { obs_range(r); assert(inside(r, &s), 2); reach(2) }
    obs(f.test_at_offset(o).map_or(99, |x| x as u64));
}
fn fe_range() { warm();
    let s = text(); let f = open(&s);
    let (a, b) = (between(0, s.len()), between(0, s.len())); assume(a <= b);
    let r = TextRange::from_to(tu(a as u32), tu(b as u32));
    if let Some(x) = f.extend_selection(r) { obs_range(x); assert(inside(x, &s), 1) }
    let acts = f.context_actions(r); obs(acts.len() as u64);
    for id in &["Swap", "Swap alternatives", "Extract rule", "Add impl", "no such action"] {
        match f.apply_context_action(r, id) {
            None => assert(!acts.contains(id), 2),
            Some(e) => { assert(acts.contains(id), 3); reach(1); obs_str(&e.apply(f.file().text()).as_text().to_string()) }
        }
    }
}
fn fe_format() { warm();
    let t = pieces(FMT, param(0) as usize).0;
    let s = match param(1) { 0 => format!("rule a {{{}}}", t), 1 => format!("rule a {{ <b {{a|{}}}> }}", t), _ => format!("rule a {{ <b{}> }}", t) };
    let f = open(&s);
    let g = open(&f.reformat().apply(f.file().text()).as_text().to_string());
    let out = g.file().text().to_string(); obs_str(&out);
    // only whitespace changes
    assert(skeleton(f.file()) == skeleton(g.file()), 1);
    let again = g.reformat().apply(g.file().text()).as_text().to_string();
    if has_error(f.file()) { reach(2); return }
    // formatting once is enough
    assert(again == out, 2);
    reach(1);
    // text over several lines may stay as it is
    if !s.contains('\n') {
        reach(3);
        let v = flat_all(g.file());
        let leaves: Vec<&Ev> = v.iter().filter(|e| e.0 == 0).collect();
        let ws = |i: usize| { let e = leaves[i]; if e.1 == WHITESPACE { Some(&out[e.2 as usize..e.3 as usize]) } else { None } };
        for i in 1..leaves.len() - 1 {
            let ok = |w: Option<&str>, one: bool| w.map_or(!one, |w| one && w == " ");
            match leaves[i].1 {
                PIPE => assert(ok(ws(i - 1), true) && ok(ws(i + 1), true), 3),
                L_ANGLE => assert(ok(ws(i + 1), false), 4),
                R_ANGLE => assert(ok(ws(i - 1), false), 5),
                _ => (),
            }
        }
    }
}
}
