//! The Rust editor: every service of `RustEditorFile` on any text, and the symbol index.
use crate::langs::*;
use crate::rt::*;
use fall_editor::EditorFileImpl;
use fall_tree::{tu, File, Node, NodeType, TextRange, ERROR};
use lang_rust::editor::{RustEditorFile, SymbolIndex};
use lang_rust_syntax::*;
use lang_rust_syntax::lang_rust;
use std::path::PathBuf;
const TOP: &[&str] = &["struct ", "enum ", "fn ", "impl ", "for ", "use ", "trait ", "mod ", "S ", "<T>", "()", "{", "}", ";", "::", " as ", "\n"];
const BODY: &[&str] = &["let ", "x ", "= ", ";", "a.p", "$", "if ", "{", "}", ".", "fn g() ", "struct S ", "1 ", "(", "é "];
const GENERIC: &[&str] = &["'a", "T", ": C", ",", " ", "<", ">", "(", ")", "{}", ";"];
const USES: &[&str] = &["a", "::", "{", "}", "*", " as b", ";", "self", "super", "<A as B>", ",", " "];
fn warm() { let l = lang_rust(); l.parse(r##"#[a] pub fn f(x: &i32) -> X<'a> { let y = 1 + a.b(); if x => { "s" } } /* */ // !"##); }
fn text() -> String {
    let n = param(0) as usize;
    match param(1) {
        0 => pieces(TOP, n).0,
        1 => format!("fn f() {{{}}}", pieces(BODY, n).0),
        2 => format!("struct S{} fn g() {{}}", pieces(GENERIC, n).0),
        3 => format!("use {} fn g() {{}}", pieces(USES, n).0),
        _ => format!("mod m {{ impl T for S {{{}}}", pieces(TOP, n).0),
    }
}
fn obs_range(r: TextRange) { obs(u(r.start()) as u64); obs(u(r.end()) as u64) }
fn open(s: &str) -> RustEditorFile { <RustEditorFile as EditorFileImpl>::parse(s) }
fn inside(r: TextRange, s: &str) -> bool { u(r.start()) <= u(r.end()) && u(r.end()) as usize <= s.len() }
fn post<'f>(n: Node<'f>, out: &mut Vec<Node<'f>>) { for c in n.children() { post(c, out) } out.push(n) }
fn nodes(f: &File) -> Vec<Node> { let mut v = vec![]; post(f.root(), &mut v); v }
fn name(n: Node) -> Option<String> { n.children().find(|c| c.ty() == IDENT).map(|c| c.text().to_string()) }
const NAMED: &[NodeType] = &[FN_DEF, STRUCT_DEF, ENUM_DEF, TYPE_DEF, TRAIT_DEF, MOD_DEF];
/// The definitions of a file, inner ones first.
fn symbols(f: &File) -> Vec<(NodeType, String, TextRange)> {
    nodes(f).into_iter().filter(|n| NAMED.contains(&n.ty())).filter_map(|n| name(n).map(|s| (n.ty(), s, n.range()))).collect()
}
/// What the breadcrumbs call a node.
fn crumb(n: Node) -> Option<String> {
    let tag = match n.ty() { STRUCT_DEF => "struct", ENUM_DEF => "enum", TRAIT_DEF => "trait", FN_DEF => "fn", IMPL_DEF => "", _ => return None };
    if tag != "" { return name(n).map(|s| format!("{} {}", tag, s)) }
    let t: Vec<String> = n.children().filter(|c| c.ty() == TYPE_REFERENCE).map(|c| c.text().to_string()).collect();
    match t.len() { 0 => None, 1 => Some(format!("impl {}", t[0])), _ => Some(format!("impl {} for {}", t[0], t[1])) }
}
fn subseq(q: &str, s: &str) -> bool { let mut it = s.chars(); q.chars().all(|c| it.any(|x| x == c)) }
crate::entries! {
fn re_views() { warm();
    let s = text(); let f = open(&s);
    for (r, t) in f.highlight() { obs_range(r); assert(inside(r, &s) || t.0 == "error" && u(r.end()) == u(r.start()) + 1 && u(r.start()) as usize == s.len(), 1) }
    for d in f.diagnostics() { obs_range(d.range); assert(inside(d.range, &s), 2) }
    let st: Vec<(String, TextRange)> = f.structure().into_iter().map(|n| (n.name, n.range)).collect();
    let want: Vec<(String, TextRange)> = symbols(f.file()).into_iter().map(|x| (x.1, x.2)).collect();
    assert(st == want, 3);
    obs_str(&f.syntax_tree());
    assert(f.reformat().apply(f.file().text()).as_text().to_string() == s, 4);
    if !st.is_empty() { reach(1) } else { reach(2) }
}
fn re_offset() { warm();
    let s = text(); let f = open(&s);
    let o = between(0, s.len()) as u32; assume(s.is_char_boundary(o as usize));
    let crumbs = f.breadcrumbs(tu(o));
    obs(crumbs.len() as u64); for c in &crumbs { obs_str(c) }
    // the definitions the character before the caret is in, outer ones first
    if o > 0 {
        let o = o - 1;
        let (mut must, mut may) = (vec![], vec![]);
        for n in nodes(f.file()).into_iter().rev() {
            if let Some(c) = crumb(n) { let (a, b) = (u(n.range().start()), u(n.range().end())); if a <= o && o <= b { if a < o && o < b { must.push(c.clone()) } may.push(c) } }
        }
        let sub = |x: &[String], y: &[String]| { let mut it = y.iter(); x.iter().all(|c| it.any(|d| d == c)) };
        assert(sub(&must, &crumbs), 1); assert(sub(&crumbs, &may), 2);
        if !must.is_empty() { reach(1) }
    } else { assert(crumbs.is_empty(), 3) }
    // a space after `let`
    let r = f.after_space_typed(tu(o));
    let ns = nodes(f.file());
    let kw = ns.iter().find(|n| n.ty() == LET && o > 0 && u(n.range().end()) == o - 1);
    if let Some(kw) = kw {
        let stmt = kw.parent().filter(|p| p.ty() == LET_STMT);
        let open = stmt.map_or(false, |st| !st.children().any(|c| c.ty() == SEMI || c.ty() == EQ) && !s[u(st.range().end()) as usize..].starts_with(';'));
        assert(r == if open { Some(";".to_string()) } else { None }, 4);
        if open { reach(2) }
    } else if r.is_some() {
        // inside the keyword
        assert(ns.iter().any(|n| n.ty() == LET && u(n.range().start()) < o && o - 1 < u(n.range().end())) || o == 1 && s.starts_with("let"), 5)
    }
    obs(r.is_some() as u64);
}
fn re_expand() { warm();
    let s = text(); let f = open(&s);
    let o = between(0, s.len()) as u32; assume(s.is_char_boundary(o as usize));
    match f.expand(tu(o)) {
        Some(e) => {
            let t = e.apply(f.file().text()).as_text().to_string(); obs_str(&t);
            let x = t.find("eprintln!(\""); assert(x.is_some(), 1); let x = x.unwrap();
            let ok = nodes(f.file()).into_iter().any(|n| {
                if n.ty() != EXPR_STMT || u(n.range().start()) as usize != x { return false }
                let q = n.text().to_string();
                match q.rfind('.') { Some(i) => t == format!("{}eprintln!(\"{p} = {{:?}}\", {p});{}", &s[..x], &s[o as usize..], p = &q[..i]), None => false }
            });
            assert(ok, 2); reach(1)
        }
        None => { reach(2); obs(0) }
    }
}
fn re_actions() { warm();
    let s = text(); let f = open(&s);
    let (a, b) = (between(0, s.len()), between(0, s.len())); assume(a <= b && b <= a + 1);
    let r = TextRange::from_to(tu(a as u32), tu(b as u32));
    if let Some(x) = f.extend_selection(r) { obs_range(x); assert(inside(x, &s), 1) }
    let acts = f.context_actions(r); obs(acts.len() as u64);
    let clean = !has_error(f.file());
    for id in &["Swap", "Add braces", "Add impl"] {
        let e = f.apply_context_action(r, id);
        assert(acts.contains(id) == e.is_some(), 2);
        if let Some(e) = e {
            let t = e.apply(f.file().text()).as_text().to_string(); obs_str(&t);
            if clean && *id != "Swap" { reach(1); print(&format!("{:?} -> {:?}", s, t)); assert(!has_error(&lang_rust().parse(t.clone())), 3) }
            if clean && *id == "Add braces" {
                // the last name of the path and its alias went into braces
                let ok = (0..s.len()).any(|i| (i + 1..s.len()).any(|j|
                    s.is_char_boundary(i) && s.is_char_boundary(j) && t == format!("{}{{{}}}{}", &s[..i], &s[i..j], &s[j..])
                    && (s[..i].trim_end().ends_with("use") || s[..i].trim_end().ends_with("::"))
                    && s[i..j].split_whitespace().count() == if s[i..j].contains(" as b") { 3 } else { 1 }
                    && !s[i..j].contains("::") && s[j..].trim_start().starts_with(';')));
                assert(ok, 5); reach(2)
            }
        }
    }
    assert(f.apply_context_action(r, "nothing").is_none(), 4);
}
fn re_impl() { warm();
    // a struct or enum with lifetimes and type parameters
    let (nl, nt) = (choose(3), choose(3));
    let (mut params, mut args) = (vec![], vec![]);
    for i in 0..nl { let n = ["'a", "'b"][i]; args.push(n.to_string()); params.push(format!("{}{}", n, ["", ": 'c"][choose(2)])) }
    for i in 0..nt { let n = ["T", "Xy"][i]; args.push(n.to_string()); params.push(format!("{}{}", n, ["", ": C", ": 'c + D<E>"][choose(3)])) }
    let sep = [",", " ,\n"][if nl + nt > 1 { choose(2) } else { 0 }];
    let some = nl + nt > 0 || choose(2) == 1;
    let p = if some { format!("<{}{}>", params.join(sep), if nl + nt > 0 && choose(2) == 1 { "," } else { "" }) } else { String::new() };
    let (pre, post) = (["", "// c\n", "pub "][choose(3)], ["", "// d"][choose(2)]);
    let decl = format!("{}{}", ["struct Foo", "enum Foo"][choose(2)], p);
    let decl = if decl.starts_with("struct") { format!("{}{}", decl, [";", " {}", "(X);"][choose(3)]) } else { format!("{} {{ A }}", decl) };
    let s = format!("{}{}{}", pre, decl, post);
    let f = open(&s);
    assert(!has_error(f.file()), 1);
    let d = pre.len() + decl.find("Foo").unwrap();
    let o = [pre.len() + 1, d + 1, d + 3, pre.len() + decl.len() - 1][choose(4)];
    let r = TextRange::from_len(tu(o as u32), tu(0));
    let e = f.apply_context_action(r, "Add impl");
    assert(e.is_some(), 2);
    let t = e.unwrap().apply(f.file().text()).as_text().to_string();
    let want = format!("{}{}\n\nimpl{} Foo{} {{\n\n}}{}", pre, decl, p, if some { format!("<{}>", args.join(", ")) } else { String::new() }, post);
    assert(t == want, 3);
    reach(1); obs_str(&t);
}
fn re_index() { warm();
    // files of definitions; every query
    let n = param(0) as usize;
    let files = 1 + choose(param(1) as usize);
    let mut texts = vec![];
    let mut all: Vec<(String, NodeType, String, TextRange, (u32, u32), (u32, u32))> = vec![];
    for i in 0..files {
        let mut t = String::new();
        for _ in 0..n {
            t.push_str(["\n", " ", ""][choose(3)]);
            t.push_str(["struct Ab;", "fn ab() {}", "fn bA() { fn A() {}}", "enum B {}", "trait b {}", "type aB = A;"][choose(6)]);
        }
        let f = lang_rust().parse(t.clone());
        let lc = |o: u32| { let b = &t[..o as usize]; (b.matches('\n').count() as u32, (b.len() - b.rfind('\n').map_or(0, |i| i + 1)) as u32) };
        for (ty, name, r) in symbols(&f) { all.push((format!("f{}", i), ty, name, r, lc(u(r.start())), lc(u(r.end())))) }
        texts.push((PathBuf::from(format!("f{}", i)), t));
    }
    let index = SymbolIndex::of_texts(texts);
    let q: String = (0..choose(param(2) as usize + 1)).map(|_| ["a", "b", "B", "#"][choose(4)]).collect();
    let mut got: Vec<_> = index.query(&q).into_iter().map(|(p, s)| (p.to_str().unwrap().to_string(), s.ty, s.name, s.range, (s.lc_range[0].line, s.lc_range[0].col), (s.lc_range[1].line, s.lc_range[1].col))).collect();
    let low = q.replace('#', "").to_lowercase();
    let hits = |types: bool| all.iter().filter(|x| subseq(&low, &x.2.to_lowercase()) && (!types || [STRUCT_DEF, ENUM_DEF, TRAIT_DEF, TYPE_DEF].contains(&x.1))).cloned().collect::<Vec<_>>();
    let mut want = hits(!q.contains('#'));
    if want.is_empty() { want = hits(false); reach(2) } else { reach(1) }
    got.sort_by(|x, y| (&x.0, x.3.start(), x.3.end()).cmp(&(&y.0, y.3.start(), y.3.end())));
    want.sort_by(|x, y| (&x.0, x.3.start(), x.3.end()).cmp(&(&y.0, y.3.start(), y.3.end())));
    if got != want { print(&format!("{:?}\n got {:?}\nwant {:?}", q, got, want)) }
    assert(got == want, 1);
    obs(got.len() as u64);
}
}
