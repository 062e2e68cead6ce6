//! Refactorings of grammar files.
use crate::falled::open;
use crate::langs::*;
use crate::rt::*;
use fall_editor::EditorFileImpl;
use fall_tree::{tu, File, Node, NodeType, TextRange};
use lang_fall_syntax::{BLOCK_EXPR, CALL_EXPR, OPT_EXPR, PIPE, REF_EXPR, REP_EXPR, SEQ_EXPR, SYN_RULE};
const BODY: &[&str] = &["a", " ", "|", "{", "}", "'t'", "?", "<b ", ">", "\n", "//c\n"];
struct N { ty: NodeType, a: usize, b: usize, up: Option<usize>, leaf: bool, ws: bool }
fn nodes(f: &File) -> Vec<N> {
    fn go(n: Node, up: Option<usize>, v: &mut Vec<N>) {
        let i = v.len();
        v.push(N { ty: n.ty(), a: u(n.range().start()) as usize, b: u(n.range().end()) as usize, up, leaf: is_leaf(n), ws: n.file().language().node_type_info(n.ty()).whitespace_like });
        for c in n.children() { go(c, Some(i), v) }
    }
    let mut v = vec![]; go(f.root(), None, &mut v); v
}
fn is_expr(t: NodeType) -> bool { [REF_EXPR, CALL_EXPR, BLOCK_EXPR, OPT_EXPR, REP_EXPR, SEQ_EXPR].contains(&t) }
fn tokens(s: &str, v: &[N], a: usize, b: usize) -> Vec<String> { v.iter().filter(|n| n.leaf && !n.ws && a <= n.a && n.b <= b).map(|n| s[n.a..n.b].to_string()).collect() }
fn text() -> String {
    let p = pieces(BODY, param(0) as usize).0;
    match param(1) { 0 => format!("rule r {{{}}}", p), 1 => format!("test r\"\" rule r {{{}| a b}} rule b(x) {{x}}", p), _ => format!("rule r {{ <b {}> }}", p) }
}
crate::entries! {
fn fa_swap() {
    let s = text(); let f = open(&s); if has_error(f.file()) { return }
    let v = nodes(f.file());
    let o = conc(between(0, s.len()) as u64) as usize;
    let got = f.apply_context_action(TextRange::from_len(tu(o as u32), tu(0)), "Swap alternatives");
    let pipe = v.iter().position(|n| n.leaf && n.ty == PIPE && n.a <= o && o <= n.b);
    match pipe {
        None => { reach(1); assert(got.is_none(), 1) }
        Some(p) => {
            reach(2);
            let sib: Vec<usize> = (0..v.len()).filter(|&i| v[i].up == v[p].up && (i == p || is_expr(v[i].ty))).collect();
            let k = sib.iter().position(|&i| i == p).unwrap();
            let (l, r) = (&v[sib[k - 1]], &v[sib[k + 1]]);
            let want = format!("{}{}{}{}{}", &s[..l.a], &s[r.a..r.b], &s[l.b..r.a], &s[l.a..l.b], &s[r.b..]);
            let new = got.unwrap().apply(f.file().text()).as_text().to_string(); obs_str(&new);
            assert(new == want, 2);
            assert(!has_error(open(&new).file()), 3);
        }
    }
}
fn fa_extract() {
    let s = text(); let f = open(&s); if has_error(f.file()) { return }
    let v = nodes(f.file());
    let (a, b) = (conc(between(0, s.len()) as u64) as usize, conc(between(0, s.len()) as u64) as usize); assume(a <= b);
    let got = f.apply_context_action(TextRange::from_to(tu(a as u32), tu(b as u32)), "Extract rule");
    if a == b { assert(got.is_none(), 1); return }
    // the innermost expression around the selection
    let mut e = (0..v.len()).rev().find(|&i| v[i].a <= a && b <= v[i].b);
    while let Some(i) = e { if is_expr(v[i].ty) { break } e = v[i].up }
    let e = match e { None => { reach(1); assert(got.is_none(), 2); return } Some(e) => e };
    if v[e].ty == REF_EXPR { reach(2); assert(got.is_none(), 3); return }
    let parts: Vec<&N> = v.iter().filter(|n| v[e].ty == SEQ_EXPR && n.up == Some(e) && is_expr(n.ty) && n.a < b && a < n.b).collect();
    let whole = (v[e].a, v[e].b);
    let some = if parts.is_empty() { whole } else { (parts[0].a, parts[parts.len() - 1].b) };
    // blanks at the edge of the selection: the parts inside it or the whole sequence
    let edge = |i: usize| v.iter().any(|n| n.leaf && n.ws && n.a <= i && i < n.b);
    let loose = edge(a) || edge(b - 1);
    let mut up = Some(e); while v[up.unwrap()].ty != SYN_RULE { up = v[up.unwrap()].up }
    let rule = &v[up.unwrap()];
    let body = v[e].up == up;
    let new = match got { None => { assert(false, 4); return } Some(x) => x.apply(f.file().text()).as_text().to_string() }; obs_str(&new);
    let g = open(&new);
    if has_error(g.file()) { print(&format!("{} [{};{}) -> {}", s, a, b, new)) }
    assert(!has_error(g.file()), 5);
    let w = nodes(g.file());
    let have = tokens(&new, &w, 0, new.len());
    let want = |x: (usize, usize)| -> Vec<String> {
        let mut t = tokens(&s, &v, 0, x.0);
        let mut add = |l: &[&str]| t.extend(l.iter().map(|x| x.to_string()));
        if body { add(&["{", "new_rule", "}"]) } else { add(&["new_rule"]) }
        t.extend(tokens(&s, &v, x.1, rule.b));
        t.extend(["rule", "new_rule", "{"].iter().map(|x| x.to_string()));
        t.extend(tokens(&s, &v, x.0, x.1));
        t.push("}".to_string());
        t.extend(tokens(&s, &v, rule.b, s.len()));
        t
    };
    reach(if body { 3 } else if parts.is_empty() { 4 } else { 5 });
    let ok = have == want(some) || loose && have == want(whole);
    if !ok { print(&format!("{} [{};{}) -> {}", s, a, b, new)) }
    assert(ok, 6);
}
}
