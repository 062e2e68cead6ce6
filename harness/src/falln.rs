//! What the grammar-file editor says about names: definitions, usages, colours, structure, problems.
//! The grammar is put together from symbolic choices together with a description of it; the description answers the questions.
use crate::falled::{obs_range, open};
use crate::langs::*;
use crate::rt::*;
use fall_editor::{EditorFileImpl, Severity};
use fall_tree::{tu, TextRange};
type R = (usize, usize);
struct Lex { name: &'static str, pat: &'static str, name_r: R, r: R }
enum Item { Ref(&'static str, R), Call(&'static str, R, R, Vec<Item>) }
struct Rule { attr: &'static str, public: bool, name: &'static str, name_r: R, params: Option<Vec<(&'static str, R)>>, items: Vec<Item>, body: R, alts: usize, r: R }
#[derive(Default)]
struct G { t: String, lex: Vec<Lex>, rules: Vec<Rule> }
fn rg(r: R) -> TextRange { TextRange::from_to(tu(r.0 as u32), tu(r.1 as u32)) }
fn ur(r: TextRange) -> R { (u(r.start()) as usize, u(r.end()) as usize) }
impl G {
    fn put(&mut self, s: &str) -> R { let a = self.t.len(); self.t.push_str(s); (a, self.t.len()) }
    fn lex(&mut self, name: &'static str, pat: &'static str) {
        let name_r = self.put(name); self.put(" "); let p = self.put(pat); self.put(" ");
        self.lex.push(Lex { name, pat, name_r, r: (name_r.0, p.1) });
    }
    fn reference(&mut self, name: &'static str) -> Item { let r = self.put(name); self.put(" "); Item::Ref(name, r) }
    fn call(&mut self, name: &'static str, args: &[&'static str]) -> Item {
        let a = self.put("<").0; let nr = self.put(name); self.put(" ");
        let v = args.iter().map(|x| self.reference(x)).collect();
        let e = self.put(">").1; self.put(" ");
        Item::Call(name, nr, (a, e), v)
    }
    fn rule(&mut self, attr: &'static str, public: bool, name: &'static str, params: Option<&[&'static str]>, body: impl FnOnce(&mut G) -> (Vec<Item>, usize)) {
        let a = self.t.len();
        self.put(attr); if public { self.put("pub "); } self.put("rule ");
        let name_r = self.put(name);
        let params = params.map(|p| { self.put("("); let v = p.iter().map(|x| { let r = self.put(x); self.put(", "); (*x, r) }).collect(); self.put(")"); v });
        self.put(" "); let b = self.put("{ ").0;
        let (items, alts) = body(self);
        let e = self.put("}").1; self.put("\n");
        self.rules.push(Rule { attr, public, name, name_r, params, items, body: (b, e), alts, r: (a, e) });
    }
    fn node_type(&self, i: usize) -> &'static str { let r = &self.rules[i]; if !r.public || r.attr == "#[pratt] " { "" } else { r.name } }
    fn rule_named(&self, n: &str) -> Option<usize> { self.rules.iter().position(|r| r.name == n) }
    /// the definition a name stands for in rule `i`: a parameter, then the first rule, then the last token
    fn resolve(&self, i: usize, n: &str) -> Option<(u8, usize, R)> {
        if let Some(ps) = &self.rules[i].params { if let Some(k) = ps.iter().position(|p| p.0 == n) { return Some((0, k, ps[k].1)) } }
        if let Some(k) = self.rule_named(n) { return Some((1, k, self.rules[k].name_r)) }
        self.lex.iter().enumerate().rev().find(|(_, l)| if l.pat.starts_with('\'') { l.pat == n } else { l.name == n }).map(|(k, l)| (2, k, l.r))
    }
    fn callee(&self, n: &str) -> Option<usize> {
        if BUILTIN.iter().any(|b| b.0 == n) { return None }
        let k = self.rule_named(n)?;
        if self.rules[k].params.is_some() { Some(k) } else { None }
    }
    /// every use of a name in a rule: its place and its definition
    fn uses(&self) -> Vec<(R, Option<R>, u8)> {
        let mut v = vec![];
        for (i, r) in self.rules.iter().enumerate() { for x in &r.items { self.uses_in(i, x, &mut v) } }
        v
    }
    fn uses_in(&self, i: usize, x: &Item, v: &mut Vec<(R, Option<R>, u8)>) {
        match x {
            Item::Ref(n, r) => { let d = self.resolve(i, n); v.push((*r, d.map(|d| d.2), d.map_or(9, |d| d.0))) }
            Item::Call(n, nr, _, args) => { if let Some(k) = self.callee(n) { v.push((*nr, Some(self.rules[k].name_r), 3)) } for a in args { self.uses_in(i, a, v) } }
        }
    }
    fn problems(&self) -> Vec<(u8, R, String)> {
        let mut v = vec![];
        let mut used = vec![false; self.rules.len()]; if !used.is_empty() { used[0] = true }
        let mut ctx: Vec<(&'static str, R, usize)> = vec![];
        for (i, r) in self.rules.iter().enumerate() {
            for x in &r.items { self.problems_in(i, x, false, &mut v, &mut used, &mut ctx) }
            if self.rule_named(r.name) != Some(i) { v.push((0, r.name_r, "Duplicate rule".to_string())) }
            let n = r.items.len();
            let mut e = |r: R, s: &str| v.push((0, r, s.to_string()));
            match r.attr {
                "#[atom(1)] " => e(r.name_r, "Atom rules don't have priority"),
                "" | "#[atom] " | "#[pratt] " => (),
                _ if r.alts != 1 => e(r.body, "Expression rule requires a single alternative"),
                "#[postfix] " => if n != 2 { e(r.body, "Postfix rule requires a single expression and an operation") },
                "#[prefix(1)] " => if n != 2 { e(r.body, "Prefix rule requires an operation and a single expression") },
                _ => if n != 3 { e(r.body, "Binary expression requires a left hand side expression, an operator and a right hand side expression") }
                    else if r.attr == "#[bin] " { e(r.name_r, "Binary expression requires explicit priority") },
            }
        }
        for c in ctx { if c.2 == 1 { v.push((1, c.1, format!("Context `{}` is used only once", c.0))) } }
        for (i, r) in self.rules.iter().enumerate() { if !used[i] { v.push((1, r.name_r, "Unused rule".to_string())) } }
        for (i, l) in self.lex.iter().enumerate() { if self.lex[..i].iter().any(|m| m.name == l.name) { v.push((0, l.r, "Duplicate token".to_string())) } }
        v.sort(); v
    }
    fn problems_in(&self, i: usize, x: &Item, is_ctx: bool, v: &mut Vec<(u8, R, String)>, used: &mut [bool], ctx: &mut Vec<(&'static str, R, usize)>) {
        match x {
            Item::Ref(n, r) => match self.resolve(i, n) {
                Some((1, k, _)) => used[k] = true,
                Some(_) => (),
                None => if !is_ctx { v.push((0, *r, "Unresolved reference".to_string())) },
            },
            Item::Call(n, nr, r, args) => {
                let first = args.get(0).and_then(|a| if let Item::Ref(n, r) = a { Some((*n, *r)) } else { None });
                let takes_ctx = *n == "is_in" || *n == "enter";
                let named = takes_ctx && first.map_or(false, |f| f.0.starts_with('\''));
                for (k, a) in args.iter().enumerate() { self.problems_in(i, a, named && k == 0, v, used, ctx) }
                if named { let c = &first.unwrap().0; let c = &c[1..c.len() - 1]; match ctx.iter_mut().find(|x| x.0 == c) { Some(x) => x.2 += 1, None => ctx.push((c, *r, 1)) } }
                match BUILTIN.iter().find(|b| b.0 == *n) {
                    Some((_, 9)) => for a in args {
                        let public = if let Item::Ref(m, _) = a { if let Some((1, k, _)) = self.resolve(i, m) { !self.node_type(k).is_empty() } else { false } } else { false };
                        if !public { v.push((0, *r, "<prev_is> arguments must be public rules".to_string())) }
                    },
                    Some((_, want)) => {
                        if args.len() != *want { v.push((0, *r, format!("Wrong number of arguments, expected {}, got {}", want, args.len()))) }
                        if takes_ctx && args.len() >= *want && !named { v.push((0, first.unwrap().1, "Context should be a single quoted string".to_string())) }
                    }
                    None => match self.callee(n) {
                        None => v.push((0, *nr, "Unresolved reference".to_string())),
                        Some(k) => {
                            used[k] = true;
                            let want = self.rules[k].params.as_ref().unwrap().len();
                            if want != args.len() { v.push((0, *r, format!("Expected {} arguments, got {}", want, args.len()))) }
                        }
                    },
                }
            }
        }
    }
}
const BUILTIN: &[(&str, usize)] = &[("eof", 0), ("not", 1), ("is_in", 1), ("layer", 2), ("enter", 2), ("prev_is", 9)];
const NAMES: &[&str] = &["a", "b", "'x'", "'y'"];
const PATS: &[&str] = &["'x'", "'y'", "r\"z\""];
const CALLEES: &[&str] = &["a", "b", "eof", "not", "is_in", "layer", "enter", "prev_is"];
const ARGS: &[&[&str]] = &[&[], &["a"], &["b"], &["'x'"], &["'x'", "a"], &["a", "b"], &["a", "'y'", "a"]];
const ATTRS: &[&str] = &["", "#[atom] ", "#[atom(1)] ", "#[postfix] ", "#[prefix(1)] ", "#[bin] ", "#[bin(2)] ", "#[pratt] "];
fn pick(v: &[&'static str]) -> &'static str { v[choose(v.len())] }
fn params() -> Option<&'static [&'static str]> { [None, Some(&["a"][..]), Some(&["b", "a"][..]), Some(&[][..])][choose(param(1) as usize)] }
fn grammar() -> G {
    let mut g = G::default();
    match param(0) {
        // references: which of several definitions of a name it is
        0 => {
            g.put("tokenizer { "); for _ in 0..2 { let n = pick(&NAMES[..2]); g.lex(n, PATS[choose(2)]) } g.put("}\n");
            let n = pick(&NAMES[..2]); g.rule("", true, n, params(), |g| { let x = g.reference(pick(NAMES)); let y = g.reference("a"); (vec![x, y], 1) });
            let n = pick(&NAMES[..2]); g.rule("", false, n, None, |g| { let x = g.reference(pick(NAMES)); (vec![x], 1) });
        }
        // calls
        1 => {
            g.put("tokenizer { "); g.lex("t", "'x'"); g.put("}\n");
            let n = pick(&NAMES[..2]); g.rule("", flag(), n, params(), |g| { let c = pick(CALLEES); let x = g.call(c, ARGS[choose(ARGS.len())]); (vec![x], 1) });
            g.rule("", flag(), "b", params(), |g| { let k = choose(4); if k == 0 { return (vec![], 1) } let x = match k { 1 => g.call("a", &["a"]), 2 => g.call("is_in", &["'x'"]), _ => g.call("enter", &["'y'", "b"]) }; (vec![x], 1) });
        }
        // operator rules
        _ => {
            let at = pick(ATTRS); let n = pick(&NAMES[..2]);
            g.rule(at, flag(), n, None, |g| {
                let k = choose(4); let mut v = vec![];
                for j in 0..k { v.push(if j == 1 { g.call("eof", &[]) } else { g.reference("b") }) }
                let bar = flag(); if bar { g.put("| "); }
                (v, if bar { 2 } else { 1 })
            });
            let n = pick(&NAMES[..2]); let at = ["", "#[pratt] ", "#[atom] "][choose(param(1) as usize)];
            g.rule(at, true, n, None, |g| { let x = g.call("prev_is", &["b"]); (vec![x], 1) });
        }
    }
    g
}
crate::entries! {
fn fn_refs() {
    let g = grammar(); let f = open(&g.t); assert(!has_error(f.file()), 1);
    let uses = g.uses();
    let defs: Vec<(R, R)> = g.lex.iter().map(|l| (l.r, l.name_r)).chain(g.rules.iter().map(|r| (r.name_r, r.name_r)))
        .chain(g.rules.iter().filter_map(|r| r.params.as_ref()).flatten().map(|p| (p.1, p.1))).collect();
    let users = |d: R| -> Vec<R> { uses.iter().filter(|x| x.1 == Some(d)).map(|x| x.0).collect() };
    for (r, d, _) in &uses {
        let o = between(r.0 + 1, r.1);
        let got = f.resolve_reference(tu(o as u32)).map(ur);
        assert(got == *d, 2);
        if let Some(x) = got { reach(1); obs(x.0 as u64) } else { reach(2) }
        let us: Vec<R> = f.find_usages(tu(r.1 as u32)).into_iter().map(ur).collect();
        assert(us == d.map_or(vec![], |d| users(d)), 3);
    }
    for (d, name) in &defs {
        let us: Vec<R> = f.find_usages(tu(name.1 as u32)).into_iter().map(ur).collect();
        obs(us.len() as u64);
        assert(us == users(*d), 4);
    }
    let hl = f.highlight();
    let color = |r: R| -> Vec<&'static str> { hl.iter().filter(|h| ur(h.0) == r).map(|h| (h.1).0).collect() };
    for (r, _, k) in &uses {
        let want = match k { 0 => "parameter", 1 | 3 => "function", 2 => "literal", _ => "" };
        let got = color(*r);
        assert(if want == "" { got.iter().all(|c| *c == "string") } else { got.iter().any(|c| *c == want) }, 5);
    }
    for l in &g.lex { assert(color(l.name_r) == ["literal"], 6) }
    for r in &g.rules { assert(color(r.name_r) == ["function"], 7) }
    let st: Vec<(String, R)> = f.structure().into_iter().map(|n| (n.name, ur(n.range))).collect();
    let mut want: Vec<(String, R)> = g.rules.iter().map(|r| (r.name.to_string(), r.r)).collect();
    if !g.lex.is_empty() { want.insert(0, ("tokenizer".to_string(), (0, g.t.find('}').unwrap() + 1))) }
    assert(st == want, 8);
}
fn fn_diag() {
    let g = grammar(); let f = open(&g.t); assert(!has_error(f.file()), 1);
    let want = g.problems();
    let list = |v: Vec<fall_editor::Diagnostic>| -> Vec<(u8, R, String)> { v.into_iter().map(|d| (match d.severity { Severity::Error => 0, Severity::Warning => 1 }, ur(d.range), d.message)).collect() };
    // asking other questions first changes nothing
    if flag() { f.highlight(); f.find_usages(tu(g.rules[0].name_r.0 as u32)); reach(3) }
    let mut got = list(f.diagnostics());
    if want.is_empty() { reach(1) } else { reach(2) }
    // errors first, then by place
    for w in got.windows(2) { assert((w[0].0, w[0].1) <= (w[1].0, w[1].1), 2) }
    got.sort();
    if got != want { print(&format!("{}\n{:?}\n{:?}", g.t, got, want)) }
    assert(got == want, 3);
    for d in got { obs_range(rg(d.1)); obs_str(&d.2) }
    let again = { let mut v = list(f.diagnostics()); v.sort(); v };
    assert(again == want, 4);
}
}
