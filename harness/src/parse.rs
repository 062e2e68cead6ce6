//! C10/C11/C16–C20: the generic lexer + parser + tree conversion, run on symbolic grammars and inputs.
use crate::rt::*;
use fall_parse::*;
use fall_tree::{tu, File, Language, LanguageImpl, Metrics, Node, NodeType, NodeTypeInfo, Text, TextEdit, TextUnit, TreeBuilder, ERROR};
use std::any::Any;
use std::rc::Rc;
use std::sync::Arc;

fn u(x: TextUnit) -> u32 { x.into() }
pub const WS: u32 = 0; pub const A: u32 = 1; pub const B: u32 = 2; pub const C: u32 = 3; pub const LP: u32 = 4; pub const RP: u32 = 5;
pub const PLUS: u32 = 6; pub const STAR: u32 = 7; pub const MINUS: u32 = 8; pub const Q: u32 = 9; pub const CT: u32 = 10; pub const DOT: u32 = 11;
pub const FILE: u32 = 20; pub const N1: u32 = 21; pub const N2: u32 = 22; pub const N3: u32 = 23; pub const N4: u32 = 24; pub const N5: u32 = 25;
pub const NTYPES: u32 = 30;
/// grammar index -> node type; ERROR is node type 0
pub fn nt(i: u32) -> NodeType { NodeType(100 + i) }
pub const ERR: u32 = u32::max_value();
fn nty(i: u32) -> NodeType { if i == ERR { ERROR } else { nt(i) } }
fn info(ty: NodeType) -> NodeTypeInfo { NodeTypeInfo { name: "N", whitespace_like: ty == nt(WS) } }
struct Info;
impl LanguageImpl for Info {
    fn parse(&self, _: Text, _: &Metrics, _: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> { unreachable!() }
    fn reparse(&self, _: &dyn Any, _: &TextEdit, _: Text, _: &Metrics, _: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> { unreachable!() }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo { info(ty) }
}
struct Lang { me: Language, lexer: RegexLexer, def: Arc<ParserDefinition> }
impl LanguageImpl for Lang {
    fn parse(&self, t: Text, m: &Metrics, b: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> { parse(&self.me, &self.lexer, &self.def, t, m, b) }
    fn reparse(&self, d: &dyn Any, e: &TextEdit, t: Text, m: &Metrics, b: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> { reparse(&self.me, &self.lexer, &self.def, d, e, t, m, b) }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo { info(ty) }
}
pub type Binder = fn(NodeType, Vec<(NodeType, &str)>, bool) -> usize;
pub fn no_binder(_: NodeType, _: Vec<(NodeType, &str)>, _: bool) -> usize { 0 }
pub fn all_binder(_: NodeType, s: Vec<(NodeType, &str)>, _: bool) -> usize { s.len() }
/// single-character tokens
pub fn lexer(toks: &[u32]) -> RegexLexer {
    let mut v = vec![LexRule::new(nt(WS), " ", None)];
    for &t in toks {
        let re = match t { A => "a", B => "b", C => "c", LP => "\\(", RP => "\\)", PLUS => "\\+", STAR => "\\*", MINUS => "-", Q => "\\?", DOT => "\\.", _ => unreachable!() };
        v.push(LexRule::new(nt(t), re, None));
    }
    RegexLexer::new(v)
}
pub fn tok_of(b: u8) -> u32 { match b { b' ' => WS, b'a' => A, b'b' => B, b'c' => C, b'(' => LP, b')' => RP, b'+' => PLUS, b'*' => STAR, b'-' => MINUS, b'?' => Q, b'.' => DOT, _ => ERR } }
pub struct G { pub rules: Vec<Expr> }
impl G {
    pub fn new() -> G { G { rules: vec![Expr::Eof] } }
    pub fn add(&mut self, e: Expr) -> ExprRef { self.rules.push(e); ExprRef(self.rules.len() as u32 - 1) }
    pub fn tok(&mut self, t: u32) -> ExprRef { self.add(Expr::Token(NodeTypeRef(t))) }
    pub fn and(&mut self, p: &[ExprRef]) -> ExprRef { self.add(Expr::And(p.to_vec(), None)) }
    pub fn or(&mut self, p: &[ExprRef]) -> ExprRef { self.add(Expr::Or(p.to_vec())) }
    pub fn node(&mut self, t: u32, b: ExprRef) -> ExprRef { self.add(Expr::Pub { ty: NodeTypeRef(t), body: b, replaceable: false }) }
    pub fn start(&mut self, b: ExprRef) { self.rules[0] = Expr::Pub { ty: NodeTypeRef(FILE), body: b, replaceable: false } }
    /// may succeed without consuming a token
    pub fn nullable(&self, e: ExprRef) -> bool {
        match self.rules[e.0 as usize] {
            Expr::Pub { body, .. } | Expr::PubReplace { body, .. } | Expr::Enter(_, body) | Expr::Exit(_, body) | Expr::Cached(body) => self.nullable(body),
            Expr::Or(ref ps) => ps.iter().any(|&p| self.nullable(p)),
            Expr::And(ref ps, c) => ps.iter().take(c.unwrap_or(ps.len())).all(|&p| self.nullable(p)),
            Expr::Token(_) | Expr::Any | Expr::ContextualToken(..) => false,
            Expr::WithSkip(_, b) => self.nullable(b),
            Expr::Layer(l, _) => self.nullable(l),
            Expr::Inject(a, b) => self.nullable(a) && self.nullable(b),
            _ => true,
        }
    }
    pub fn finish(self, b: Binder) -> Arc<ParserDefinition> {
        Arc::new(ParserDefinition { node_types: (0..NTYPES).map(nt).collect(), syntactical_rules: self.rules, whitespace_binder: b })
    }
}
pub fn lang(l: RegexLexer, d: Arc<ParserDefinition>) -> Language { Language::new(Lang { me: Language::new(Info), lexer: l, def: d }) }

// ------------------------------------------------------------------ reference interpreter (PEG over trees)
#[derive(Clone, Debug, PartialEq)]
pub enum T { Leaf(u32, usize, usize), Node(u32, Vec<T>) }
#[derive(Clone, Copy)]
pub struct St { prev: Option<u32>, repl: Option<u32> }
/// contexts, and the arguments of the current call with what their own parameters refer to
#[derive(Clone)]
pub struct Cx { ctx: u32, args: Rc<Env> }
pub struct Env(Vec<(u32, ExprRef, Rc<Env>)>);
impl Env { fn get(&self, i: Arg) -> (ExprRef, Rc<Env>) { let a = self.0.iter().find(|a| a.0 == i.0).unwrap(); (a.1, a.2.clone()) } }
/// `toks`: (type, start, end) of every non-whitespace token
pub struct Ref<'a> { pub rules: &'a [Expr], pub text: &'a [u8], pub toks: &'a [(u32, usize, usize)] }
type R = Option<(usize, Vec<T>, St)>;
impl<'a> Ref<'a> {
    fn errs(&self, a: usize, b: usize) -> T { T::Node(ERR, (a..b).map(|i| self.leaf(i)).collect()) }
    fn leaf(&self, i: usize) -> T { T::Leaf(self.toks[i].0, self.toks[i].1, self.toks[i].2) }
    pub fn run(&self) -> T {
        let st = St { prev: None, repl: None }; let cx = Cx { ctx: 0, args: Rc::new(Env(vec![])) };
        let n = self.toks.len();
        match self.ev(ExprRef(0), 0, n, &cx, st) {
            Some((p, mut k, _)) => { if p < n { if let T::Node(_, ref mut c) = k[0] { c.push(self.errs(p, n)) } } k.remove(0) }
            None => T::Node(FILE, vec![self.errs(0, n)]),
        }
    }
    fn ev(&self, e: ExprRef, pos: usize, end: usize, cx: &Cx, st: St) -> R {
        match self.rules[e.0 as usize] {
            Expr::Pub { ty, body, replaceable } => {
                let (p, k, s) = self.ev(body, pos, end, cx, if replaceable { St { repl: None, ..st } } else { st })?;
                let t = if replaceable { s.repl.unwrap_or(ty.0) } else { ty.0 };
                Some((p, vec![T::Node(t, k)], St { prev: Some(ty.0), repl: if replaceable { st.repl } else { s.repl } }))
            }
            Expr::PubReplace { ty, body } => { let (p, k, s) = self.ev(body, pos, end, cx, st)?; Some((p, k, St { repl: Some(ty.0), ..s })) }
            Expr::Or(ref ps) => { for &p in ps { let r = self.ev(p, pos, end, cx, st); if r.is_some() { return r } } None }
            Expr::And(ref ps, commit) => {
                let (mut p, mut k, mut s) = (pos, vec![], st);
                for (i, &x) in ps.iter().enumerate() {
                    match self.ev(x, p, end, cx, s) {
                        Some((p2, k2, s2)) => { p = p2; k.extend(k2); s = s2 }
                        None => { if i < commit.unwrap_or(ps.len()) { return None } k.push(T::Node(ERR, vec![])); break }
                    }
                }
                Some((p, k, s))
            }
            Expr::Token(t) => if pos < end && self.toks[pos].0 == t.0 { Some((pos + 1, vec![self.leaf(pos)], st)) } else { None },
            Expr::ContextualToken(t, ref s) => {
                if pos >= end { return None }
                let a = self.toks[pos].1;
                let b = a + s.len();
                if b > self.text.len() || &self.text[a..b] != s.as_bytes() { return None }
                let mut q = pos;
                while q < end && self.toks[q].2 < b { q += 1 }
                if q < end && self.toks[q].2 == b { Some((q + 1, vec![T::Leaf(t.0, a, b)], st)) } else { None }
            }
            Expr::Rep(b) => {
                let (mut p, mut k, mut s) = (pos, vec![], st);
                while let Some((p2, k2, s2)) = self.ev(b, p, end, cx, s) { p = p2; k.extend(k2); s = s2 }
                Some((p, k, s))
            }
            Expr::WithSkip(first, b) => {
                let mut p = pos;
                loop {
                    if self.ev(first, p, end, cx, st).is_some() {
                        if let Some((q, k, s)) = self.ev(b, p, end, cx, st) {
                            let mut r = vec![]; if p > pos { r.push(self.errs(pos, p)) } r.extend(k);
                            return Some((q, r, s));
                        }
                    }
                    if p >= end { return None }
                    p += 1;
                }
            }
            Expr::Opt(b) => Some(self.ev(b, pos, end, cx, st).unwrap_or((pos, vec![], st))),
            Expr::Not(b) => if self.ev(b, pos, end, cx, st).is_some() { None } else { Some((pos, vec![], st)) },
            Expr::Eof => if pos == end { Some((pos, vec![], st)) } else { None },
            Expr::Any => if pos < end { Some((pos + 1, vec![self.leaf(pos)], st)) } else { None },
            Expr::Layer(l, b) => {
                let rest = self.ev(l, pos, end, cx, st)?.0;
                let (p, mut k, s) = self.ev(b, pos, rest, cx, st).unwrap_or((pos, vec![], st));
                if p < rest { k.push(self.errs(p, rest)) }
                Some((rest, k, s))
            }
            Expr::Pratt(ref t) => self.pratt(t, pos, end, cx, st, 0),
            Expr::Enter(c, b) => { let mut x = cx.clone(); x.ctx |= 1 << c.0; self.ev(b, pos, end, &x, st) }
            Expr::Exit(c, b) => { let mut x = cx.clone(); x.ctx &= !(1 << c.0); self.ev(b, pos, end, &x, st) }
            Expr::IsIn(c) => if cx.ctx >> c.0 & 1 == 1 { Some((pos, vec![], st)) } else { None },
            Expr::Call(b, ref args) => {
                let env = args.iter().map(|&(i, a)| match self.rules[a.0 as usize] { Expr::Var(v) => { let (e, env) = cx.args.get(v); (i.0, e, env) } _ => (i.0, a, cx.args.clone()) }).collect();
                self.ev(b, pos, end, &Cx { ctx: cx.ctx, args: Rc::new(Env(env)) }, st)
            }
            Expr::Var(i) => { let (e, env) = cx.args.get(i); self.ev(e, pos, end, &Cx { ctx: cx.ctx, args: env }, st) }
            Expr::PrevIs(ref ts) => if ts.iter().any(|t| Some(t.0) == st.prev) { Some((pos, vec![], st)) } else { None },
            Expr::Inject(a, b) => {
                let (p1, k1, s1) = self.ev(a, pos, end, cx, st)?;
                let (p2, mut k2, s2) = self.ev(b, p1, end, cx, s1)?;
                if p1 != pos { if let T::Node(_, ref mut c) = k2[0] { let mut n = k1; n.append(c); *c = n } return Some((p2, k2, s2)) }
                let mut k = k1; k.extend(k2);
                Some((p2, k, s2))
            }
            Expr::Cached(b) => self.ev(b, pos, end, cx, st),
        }
    }
    fn pratt(&self, t: &PrattTable, pos: usize, end: usize, cx: &Cx, st: St, min: u32) -> R {
        let (mut p, mut k, mut s) = self.pratt_atom(t, pos, end, cx, st)?;
        'l: loop {
            for ix in t.infixes.iter() {
                if ix.priority < min { continue }
                if let Some((p2, k2, s2)) = self.ev(ix.op, p, end, cx, s) {
                    let mut kids = k; kids.extend(k2); p = p2; s = s2;
                    if ix.has_rhs {
                        match self.pratt(t, p, end, cx, s, ix.priority + 1) {
                            Some((p3, k3, s3)) => { p = p3; kids.extend(k3); s = s3 }
                            None => kids.push(T::Node(ERR, vec![])),
                        }
                    }
                    k = vec![T::Node(ix.ty.0, kids)]; s.prev = Some(ix.ty.0);
                    continue 'l;
                }
            }
            return Some((p, k, s));
        }
    }
    fn pratt_atom(&self, t: &PrattTable, pos: usize, end: usize, cx: &Cx, st: St) -> R {
        for &a in t.atoms.iter() { let r = self.ev(a, pos, end, cx, st); if r.is_some() { return r } }
        for pf in t.prefixes.iter() {
            if let Some((p, k, s)) = self.ev(pf.op, pos, end, cx, st) {
                if let Some((p2, k2, s2)) = self.pratt(t, p, end, cx, s, pf.priority) {
                    let mut kids = k; kids.extend(k2);
                    return Some((p2, vec![T::Node(pf.ty.0, kids)], St { prev: Some(pf.ty.0), ..s2 }));
                }
            }
        }
        None
    }
}
/// Pre-order listing: (0, type, start, end) of a leaf, (1, type, 0, 0) / (2, 0, 0, 0) around an inner node's children.
pub type Ev = (u8, NodeType, u32, u32);
pub fn flat_ref(t: &T, out: &mut Vec<Ev>) {
    match *t {
        T::Leaf(ty, a, b) => out.push((0, nty(ty), a as u32, b as u32)),
        T::Node(ty, ref k) => { out.push((1, nty(ty), 0, 0)); for c in k { flat_ref(c, out) } out.push((2, ERROR, 0, 0)) }
    }
}
fn is_leaf(n: Node) -> bool { n.children().next().is_none() && !n.range().is_empty() }
pub fn flat_real(n: Node, ws: bool, out: &mut Vec<Ev>) {
    if is_leaf(n) { if ws || n.ty() != nt(WS) { out.push((0, n.ty(), u(n.range().start()), u(n.range().end()))) } return }
    out.push((1, n.ty(), 0, 0)); for c in n.children() { flat_real(c, ws, out) } out.push((2, ERROR, 0, 0));
}
/// the leaves spell the text, in order, and every inner node's range is the hull of its children
pub fn lossless(f: &File, text: &str) {
    assert(f.text() == text, 901);
    let mut pos = 0;
    fn go(n: Node, pos: &mut u32) {
        assert(u(n.range().start()) == *pos, 902);
        let mut any = false;
        for c in n.children() { any = true; assert(c.parent() == Some(n), 903); go(c, pos) }
        if !any { *pos = u(n.range().end()) }
        assert(u(n.range().end()) == *pos, 904);
    }
    go(f.root(), &mut pos);
    assert(pos as usize == text.len(), 905);
}
pub fn tokens(text: &[u8]) -> Vec<(u32, usize, usize)> {
    let mut v: Vec<(u32, usize, usize)> = vec![];
    for i in 0..text.len() {
        let t = tok_of(text[i]);
        if t == WS { continue }
        // the lexer merges adjacent unknown characters
        if t == ERR { if let Some(l) = v.last_mut() { if l.0 == ERR && l.2 == i { l.2 = i + 1; continue } } }
        v.push((t, i, i + 1));
    }
    v
}
/// parse `text` with the grammar and compare with the reference interpreter
pub fn compare(lx: RegexLexer, g: G, text: &str, b: Binder) -> usize {
    let def = g.finish(b);
    let l = lang(lx, def.clone());
    let f = l.parse(text);
    lossless(&f, text);
    let tk = tokens(text.as_bytes());
    let want = Ref { rules: &def.syntactical_rules, text: text.as_bytes(), toks: &tk }.run();
    let (mut x, mut y) = (vec![], vec![]);
    flat_ref(&want, &mut x); flat_real(f.root(), false, &mut y);
    if x != y { print(&format!("{:?}\n{}\nwant {:?}\ngot  {:?}", text, def.syntactical_rules.iter().map(|r| format!("{:?}", r)).collect::<Vec<_>>().join("\n"), x, y)); }
    assert(x == y, 1);
    obs(y.len() as u64); for e in &y { obs(e.0 as u64 + e.1 .0 as u64 * 4 + (e.2 as u64) * 1024) }
    y.len()
}
/// An arbitrary expression of at most `d` nested combinators; `extra` adds the stateful combinators.
pub fn gen(g: &mut G, d: usize) -> ExprRef {
    let k = if d == 0 { choose(3) } else { choose(16) };
    match k {
        0 => g.tok(A),
        1 => g.tok(B),
        2 => g.add(Expr::Any),
        3 => { let x = gen(g, d - 1); let y = gen(g, d - 1); g.and(&[x, y]) }
        4 => { let x = gen(g, d - 1); let y = gen(g, d - 1); g.or(&[x, y]) }
        5 => { let x = gen(g, d - 1); let y = gen(g, d - 1); g.add(Expr::And(vec![x, y], Some(1))) }
        6 => { let x = gen(g, d - 1); g.add(Expr::Opt(x)) }
        7 => { let x = gen(g, d - 1); g.add(Expr::Not(x)) }
        8 => { let x = gen(g, d - 1); assume(!g.nullable(x)); g.add(Expr::Rep(x)) }
        9 => { let x = gen(g, d - 1); g.node(N1, x) }
        10 => { let x = gen(g, d - 1); let y = gen(g, d - 1); g.add(Expr::WithSkip(x, y)) }
        11 => { let x = gen(g, d - 1); let y = gen(g, d - 1); g.add(Expr::Layer(x, y)) }
        12 => g.add(Expr::Eof),
        13 => g.and(&[]),
        14 => { let x = gen(g, d - 1); g.add(Expr::And(vec![x], Some(0))) }
        _ => g.add(Expr::ContextualToken(NodeTypeRef(CT), "ab".to_string())),
    }
}

fn leaf_s(g: &mut G, var: bool) -> ExprRef {
    match choose(if var { 10 } else { 9 }) {
        0 => g.tok(A),
        1 => g.tok(B),
        2 => { let x = g.tok(A); g.node(N1, x) }
        3 => { let x = g.tok(B); g.node(N2, x) }
        4 => { let x = g.tok(A); g.add(Expr::PubReplace { ty: NodeTypeRef(N3), body: x }) }
        5 => { let x = g.tok(B); let x = g.add(Expr::PubReplace { ty: NodeTypeRef(CT), body: x }); g.add(Expr::Pub { ty: NodeTypeRef(N2), body: x, replaceable: true }) }
        6 => g.add(Expr::IsIn(Context(0))),
        7 => g.add(Expr::PrevIs(vec![NodeTypeRef(N1)])),
        8 => {
            let a = g.tok(A); let a = g.node(N1, a); let op = g.tok(B);
            g.add(Expr::Pratt(Box::new(PrattTable { atoms: vec![a], prefixes: vec![Prefix { ty: NodeTypeRef(N3), op, priority: 1 }], infixes: vec![Infix { ty: NodeTypeRef(N2), op, priority: 1, has_rhs: true }] })))
        }
        _ => g.add(Expr::Var(Arg(0))),
    }
}
/// Expressions with the stateful combinators; binary ones have one deep and one shallow operand.
fn gen_s(g: &mut G, d: usize, var: bool) -> ExprRef {
    if d == 0 { return leaf_s(g, var) }
    let k = choose(16);
    if k < 7 {
        let v2 = var || k == 6;
        let (x, y) = if choose(2) == 0 { let x = gen_s(g, d - 1, v2); (x, leaf_s(g, var)) } else { let x = leaf_s(g, v2); (x, gen_s(g, d - 1, var)) };
        return match k {
            0 => g.and(&[x, y]), 1 => g.or(&[x, y]), 2 => g.add(Expr::And(vec![x, y], Some(1))),
            3 => g.add(Expr::WithSkip(x, y)), 4 => g.add(Expr::Layer(x, y)),
            5 => { let (x, y) = (g.node(N3, x), g.node(N4, y)); g.add(Expr::Inject(x, y)) }
            _ => g.add(Expr::Call(x, vec![(Arg(0), y)])),
        };
    }
    if k == 7 { return leaf_s(g, var) }
    let x = gen_s(g, d - 1, var);
    match k {
        8 => g.add(Expr::Opt(x)),
        9 => g.add(Expr::Not(x)),
        10 => { assume(!g.nullable(x)); g.add(Expr::Rep(x)) }
        11 => g.node(N1, x),
        12 => g.add(Expr::Pub { ty: NodeTypeRef(N4), body: x, replaceable: true }),
        13 => g.add(Expr::Enter(Context(0), x)),
        14 => g.add(Expr::Exit(Context(0), x)),
        _ => g.add(Expr::Cached(x)),
    }
}
// ------------------------------------------------------------------ lexing
fn ext_c(s: &str) -> Option<usize> { s[1..].find('c').map(|i| i + 2) }
const POOL: &[(&str, u32)] = &[("a", 10), ("ab", 11), ("a+b", 12), ("b+", 13), ("[ab]+c", 14), ("ba|bb", 15), ("c", 16), ("[^b]", 17)];
/// longest prefix of `s` that rule `r` of POOL matches, decided directly
fn match_len(r: usize, s: &[u8]) -> Option<usize> {
    let run = |f: &dyn Fn(u8) -> bool| s.iter().take_while(|&&c| f(c)).count();
    match r {
        0 => if s[0] == b'a' { Some(1) } else { None },
        1 => if s.len() > 1 && s[0] == b'a' && s[1] == b'b' { Some(2) } else { None },
        2 => { let n = run(&|c| c == b'a'); if n > 0 && s.len() > n && s[n] == b'b' { Some(n + 1) } else { None } }
        3 => { let n = run(&|c| c == b'b'); if n > 0 { Some(n) } else { None } }
        4 => { let n = run(&|c| c == b'a' || c == b'b'); if n > 0 && s.len() > n && s[n] == b'c' { Some(n + 1) } else { None } }
        5 => if s.len() > 1 && s[0] == b'b' && (s[1] == b'a' || s[1] == b'b') { Some(2) } else { None },
        6 => if s[0] == b'c' { Some(1) } else { None },
        _ => if s[0] == b'b' { None } else { Some(if s[0] < 0x80 { 1 } else if s[0] < 0xE0 { 2 } else if s[0] < 0xF0 { 3 } else { 4 }) },
    }
}
fn valid_tok(rules: &[usize], s: &[u8]) -> Option<(u32, usize)> {
    if s.is_empty() { return None }
    let mut best: Option<(usize, usize)> = None;
    for &r in rules { if let Some(l) = match_len(r, s) { if best.map_or(true, |b| l > b.1) { best = Some((r, l)) } } }
    let (r, l) = best?;
    if r == 6 { return ext_c(std::str::from_utf8(s).unwrap()).map(|l| (POOL[r].1, l)) }
    Some((POOL[r].1, l))
}
fn ref_lex(rules: &[usize], s: &[u8]) -> Vec<(u32, u32)> {
    let mut v = vec![]; let mut p = 0;
    while p < s.len() {
        let (t, l) = valid_tok(rules, &s[p..]).unwrap_or_else(|| {
            let mut q = p;
            loop { q += 1; while q < s.len() && s[q] & 0xC0 == 0x80 { q += 1 } if q >= s.len() || valid_tok(rules, &s[q..]).is_some() { break } }
            (ERR, q - p)
        });
        v.push((t, l as u32)); p += l;
    }
    v
}
fn leaves(f: &File) -> Vec<(NodeType, u32)> { f.root().children().map(|c| (c.ty(), u(c.range().end()) - u(c.range().start()))).collect() }
/// every token becomes a child of the file node
fn token_grammar() -> G { let mut g = G::new(); let a = g.add(Expr::Any); let r = g.add(Expr::Rep(a)); g.start(r); g }
fn flat_all(f: &File) -> Vec<Ev> { let mut v = vec![]; flat_real(f.root(), true, &mut v); v }
/// An edit with `hunks` hunks: each deletes a (possibly empty) range and inserts up to `maxins` characters.
pub fn an_edit(text: &str, hunks: usize, maxins: usize, alpha: &[u8]) -> TextEdit {
    let n = text.len();
    let buf = fall_tree::TextBuf::from(text.to_string());
    let mut b = fall_tree::TextEditBuilder::new(buf.as_text());
    let mut p = 0;
    for _ in 0..hunks {
        let i = p + choose(n - p + 1);
        let d = choose(n - i + 1);
        let k = choose(maxins + 1);
        if k > 0 { b.insert(tu(i as u32), over(alpha, k)) }
        if d > 0 { b.delete(fall_tree::TextRange::from_len(tu(i as u32), tu(d as u32))) }
        p = i + d;
    }
    b.build()
}
pub fn same_after_edit(l: &Language, text: &str, e: &TextEdit) {
    let f = l.parse(text);
    let g = f.edit(e);
    let new = e.apply(f.text()).as_text().to_string();
    lossless(&g, &new);
    let h = l.parse(new.clone());
    let (x, y) = (flat_all(&g), flat_all(&h));
    if x != y { print(&format!("{:?} {:?} -> {:?}\nincremental {:?}\nfresh       {:?}", text, e.ops, new, x, y)) }
    assert(x == y, 1);
    obs_str(&new); obs(x.len() as u64);
    if g.metrics().get("relexed region").map_or(false, |m| (m as usize) < new.len()) { reach(1) }
    // parts of the old tree were reused
    if g.metrics().get("parsing ticks") < h.metrics().get("parsing ticks") { reach(2) }
}

// ------------------------------------------------------------------ whitespace placement
static mut BIND: [[u64; 2]; 4] = [[0; 2]; 4];
/// claims min(table entry, available) of the adjacent whitespace tokens
fn sym_binder(ty: NodeType, s: Vec<(NodeType, &str)>, leading: bool) -> usize {
    let i = if ty == nt(N1) { 0 } else if ty == nt(N2) { 1 } else if ty == nt(N3) { 2 } else { 3 };
    let w = unsafe { BIND[i][leading as usize] } as usize;
    if w > s.len() { s.len() } else { w }
}
fn claim(ty: u32, avail: usize, leading: bool) -> usize { if ty == FILE { avail } else { sym_binder(nty(ty), vec![(nt(WS), " "); avail], leading) } }
/// Put the whitespace tokens back into the reference tree: a node takes what the binder claims of the whitespace
/// before its first and after its last token, inner nodes before outer ones at the end and outer before inner at the start.
struct Place<'a> { text: &'a [u8], pos: usize }
impl<'a> Place<'a> {
    fn avail(&self) -> usize { self.text[self.pos..].iter().take_while(|&&c| c == b' ').count() }
    fn ws(&mut self, n: usize, out: &mut Vec<Ev>) { for _ in 0..n { out.push((0, nt(WS), self.pos as u32, self.pos as u32 + 1)); self.pos += 1 } }
    fn go(&mut self, t: &T, out: &mut Vec<Ev>) {
        match *t {
            T::Leaf(ty, a, b) => { let n = self.avail(); self.ws(n, out); out.push((0, nty(ty), a as u32, b as u32)); self.pos = b }
            T::Node(ty, ref k) => {
                if ty != FILE { let n = self.avail(); let c = claim(ty, n, true); self.ws(n - c, out); }
                out.push((1, nty(ty), 0, 0));
                for c in k { self.go(c, out) }
                let n = claim(ty, self.avail(), false); self.ws(n, out);
                out.push((2, ERROR, 0, 0));
            }
        }
    }
}
fn precedence_ok(n: Node, prio: &dyn Fn(NodeType) -> Option<(u32, bool)>) {
    // operands of an infix node: looser on neither side, and strictly tighter on the right
    if let Some((p, infix)) = prio(n.ty()) {
        let cs: Vec<Node> = n.children().collect();
        if infix {
            if let Some((q, true)) = prio(cs[0].ty()) { if cs[0].children().count() == 3 { assert(q >= p, 20) } }
            let last = cs[cs.len() - 1];
            if cs.len() == 3 { if let Some((q, true)) = prio(last.ty()) { assert(q > p, 21) } }
        } else {
            let last = cs[cs.len() - 1];
            if let Some((q, true)) = prio(last.ty()) { assert(q >= p, 22) }
        }
    }
    for c in n.children() { precedence_ok(c, prio) }
}
crate::entries! {
fn c15_lex() {
    // arbitrary rule lists, arbitrary text with non-ASCII characters
    let nr = param(0) as usize;
    let mut rules = vec![];
    for _ in 0..nr { let r = choose(POOL.len()); assume(!rules.contains(&r)); rules.push(r) }
    let lx = RegexLexer::new(rules.iter().map(|&r| LexRule::new(NodeType(100 + POOL[r].1), POOL[r].0, if r == 6 { Some(ext_c) } else { None })).collect());
    let l = lang(lx, token_grammar().finish(no_binder));
    let mut text = String::new();
    for _ in 0..param(1) {
        match choose(if param(2) == 1 { 2 } else { 1 }) { 0 => text.push_str(&over(b"abcd", 1)), _ => text.push('\u{e9}') }
    }
    let f = l.parse(text.clone());
    lossless(&f, &text);
    let want: Vec<(NodeType, u32)> = ref_lex(&rules, text.as_bytes()).iter().map(|&(t, n)| (nty(t), n)).collect();
    let got = leaves(&f);
    assert(want == got, 1);
    if got.len() > 1 && got.iter().any(|g| g.0 == ERROR) { reach(1) }
    obs(got.len() as u64); for g in &got { obs(g.0 .0 as u64 * 16 + g.1 as u64) }
}
fn c14_relex() {
    // lexers whose tokens are decided by at most one character after the token
    let lx = RegexLexer::new(match param(3) {
        0 => vec![LexRule::new(nt(1), "a+", None), LexRule::new(nt(2), "b", None), LexRule::new(nt(WS), " +", None)],
        1 => vec![LexRule::new(nt(1), "ab", None), LexRule::new(nt(2), "a", None), LexRule::new(nt(3), "b", None), LexRule::new(nt(4), " ", None)],
        3 => vec![LexRule::new(nt(1), "a(bc?)?", None), LexRule::new(nt(2), "b", None), LexRule::new(nt(3), "c", None)],
        4 => vec![LexRule::new(nt(1), "'[^']*'?", None), LexRule::new(nt(2), "a", None)],
        _ => vec![LexRule::new(nt(1), "[ab]+", None), LexRule::new(nt(2), "a", None), LexRule::new(nt(4), " +", None), LexRule::new(nt(3), "c", None)],
    });
    let l = lang(lx, token_grammar().finish(no_binder));
    let alpha: &[u8] = match param(3) { 3 => b"abc", 4 => b"a'", _ => b"ab !" };
    let text = over(alpha, param(0) as usize);
    let e = an_edit(&text, param(1) as usize, param(2) as usize, alpha);
    same_after_edit(&l, &text, &e);
}
fn c13_edit() {
    // self-delimiting cached rules, nested in layers and repetitions with error recovery
    let lx = lexer(&[A, B, C, LP, RP]);
    let mut g = G::new();
    let (a, b, c, lp, rp, any) = (g.tok(A), g.tok(B), g.tok(C), g.tok(LP), g.tok(RP), g.add(Expr::Any));
    let bs = g.add(Expr::Rep(b));
    let body1 = g.add(Expr::And(vec![a, bs, c], Some(1)));
    let n1 = g.node(N1, body1);
    let items_ref = ExprRef(g.rules.len() as u32); g.rules.push(Expr::Eof);
    let bal = ExprRef(g.rules.len() as u32); g.rules.push(Expr::Eof);
    let nrp = g.add(Expr::Not(rp)); let other = g.and(&[nrp, any]); let or = g.or(&[bal, other]); let many = g.add(Expr::Rep(or));
    g.rules[bal.0 as usize] = Expr::And(vec![lp, many, rp], None);
    let inner = g.and(&[lp, items_ref, rp]);
    let layer = g.add(Expr::Layer(bal, inner));
    let n2 = g.node(N2, layer);
    let (c1, c2) = (g.add(Expr::Cached(n1)), g.add(Expr::Cached(n2)));
    let item = g.or(&[c1, c2]);
    let one = match param(4) {
        0 => { let first = g.or(&[a, lp]); g.add(Expr::WithSkip(first, item)) }
        1 => item,
        // the cached rules also serve as lookahead
        2 => g.add(Expr::WithSkip(item, item)),
        _ => { let nb = g.add(Expr::Not(c2)); let stray = g.and(&[nb, b]); g.or(&[item, stray]) }
    };
    g.rules[items_ref.0 as usize] = Expr::Rep(one);
    if param(4) == 5 {
        // what follows asks which node came before
        let after = g.add(Expr::PrevIs(vec![NodeTypeRef(N1), NodeTypeRef(N2)])); let nb = g.node(N3, b); let opt = g.add(Expr::Opt(c));
        let mark = g.node(N4, opt);
        let item = g.or(&[c1, c2, nb]); let seq = g.and(&[item, after, mark]); let one = g.or(&[seq, nb]);
        g.rules[items_ref.0 as usize] = Expr::Rep(one);
    }
    if param(4) == 6 {
        // two cached rules that may start at the same place
        let short = g.node(N3, a); let c3 = g.add(Expr::Cached(short));
        let nb = g.node(N4, b);
        let one = g.or(&[c1, c3, c2, nb]);
        // the long rule has no commit point
        g.rules[body1.0 as usize] = Expr::And(vec![a, bs, c], None);
        g.rules[items_ref.0 as usize] = Expr::Rep(one);
    }
    if param(4) == 7 {
        // a cached rule that renames the node around it, or leaves a mark inside
        let ren = g.add(Expr::PubReplace { ty: NodeTypeRef(N3), body: a }); let alt = g.node(N4, b);
        let c3body = g.or(&[ren, alt]); let c3 = g.add(Expr::Cached(c3body));
        let tail = g.add(Expr::Opt(c)); let body = g.and(&[c3, tail]);
        let outer = g.add(Expr::Pub { ty: NodeTypeRef(N1), body, replaceable: true });
        g.rules[items_ref.0 as usize] = Expr::Rep(outer);
    }
    if param(4) == 8 {
        // a cached rule that depends on the context around it
        let inside = g.add(Expr::IsIn(Context(0))); let (x, y) = (g.node(N3, a), g.node(N4, a)); let x = g.and(&[inside, x]);
        let o = g.or(&[x, y]); let c3 = g.add(Expr::Cached(o));
        let many = g.add(Expr::Rep(c3)); let ent = g.add(Expr::Enter(Context(0), many)); let blk = g.and(&[lp, ent]);
        let one = g.or(&[blk, c3, b, rp]);
        g.rules[items_ref.0 as usize] = Expr::Rep(one);
    }
    if param(4) == 9 {
        // a cached rule that depends on the node before it
        let after = g.add(Expr::PrevIs(vec![NodeTypeRef(N3)])); let (x, y) = (g.node(N1, a), g.node(N2, a)); let x = g.and(&[after, x]);
        let o = g.or(&[x, y]); let c3 = g.add(Expr::Cached(o));
        let nb = g.node(N3, b);
        let one = g.or(&[c3, nb, c]);
        g.rules[items_ref.0 as usize] = Expr::Rep(one);
    }
    if param(4) == 4 {
        // a layer that ends where a cached rule may start
        let many = g.add(Expr::Rep(c1)); let body = g.and(&[lp, many]); let layer = g.add(Expr::Layer(lp, body));
        let one = g.or(&[layer, c1]);
        g.rules[items_ref.0 as usize] = Expr::Rep(one);
    }
    g.start(items_ref);
    let l = lang(lx, g.finish(no_binder));
    let alpha: &[u8] = if param(3) == 1 { b"ac()" } else { b"abc " };
    let text = over(alpha, param(0) as usize);
    let e = an_edit(&text, param(1) as usize, param(2) as usize, alpha);
    same_after_edit(&l, &text, &e);
}
fn c13_any() {
    // any rule at all, cached
    let lx = lexer(&[A, B]);
    let mut g = G::new();
    let e = if param(1) == 0 { gen(&mut g, param(0) as usize) } else { gen_s(&mut g, param(0) as usize, false) };
    let e = g.add(Expr::Cached(e));
    let any = g.add(Expr::Any);
    let e = g.add(Expr::Opt(e)); let item = g.and(&[e, any]); let r = g.add(Expr::Rep(item)); g.start(r);
    let def = g.finish(no_binder);
    let l = lang(lx, def.clone());
    let alpha: &[u8] = if param(4) == 1 { b"ab " } else { b"ab" };
    let text = over(alpha, param(2) as usize);
    let e = an_edit(&text, param(3) as usize, 1, alpha);
    print(&format!("{:?}", def.syntactical_rules));
    same_after_edit(&l, &text, &e);
}
fn c16_pratt() {
    // three operators and a prefix with symbolic priorities against precedence climbing over trees
    let lx = lexer(&[A, PLUS, STAR, MINUS, Q]);
    let mut g = G::new();
    let (a, plus, star, minus, q) = (g.tok(A), g.tok(PLUS), g.tok(STAR), g.tok(MINUS), g.tok(Q));
    let a = g.node(N1, a);
    let p: Vec<u32> = (0..4).map(|_| between(0, 3) as u32).collect();
    let mode = param(1);
    let infixes = vec![Infix { ty: NodeTypeRef(N2), op: plus, priority: p[0], has_rhs: true }, Infix { ty: NodeTypeRef(N3), op: star, priority: p[1], has_rhs: true }, Infix { ty: NodeTypeRef(N4), op: q, priority: p[2], has_rhs: false }];
    let prefixes = vec![Prefix { ty: NodeTypeRef(N5), op: minus, priority: p[3] }];
    let e = g.add(Expr::Pratt(Box::new(PrattTable { atoms: vec![a], prefixes, infixes })));
    g.start(e);
    let alpha: &[u8] = if mode == 0 { b"a+*" } else { b"a+-?" };
    let text = over(alpha, param(0) as usize);
    let def = g.finish(no_binder);
    let l = lang(lx, def.clone());
    let f = l.parse(text.clone());
    lossless(&f, &text);
    let tk = tokens(text.as_bytes());
    let want = Ref { rules: &def.syntactical_rules, text: text.as_bytes(), toks: &tk }.run();
    let (mut x, mut y) = (vec![], vec![]);
    flat_ref(&want, &mut x); flat_real(f.root(), false, &mut y);
    assert(x == y, 1);
    let pr = |t: NodeType| if t == nt(N2) { Some((p[0], true)) } else if t == nt(N3) { Some((p[1], true)) } else if t == nt(N4) { Some((p[2], true)) } else if t == nt(N5) { Some((p[3], false)) } else { None };
    if !y.iter().any(|e| e.0 == 1 && e.1 == ERROR) { precedence_ok(f.root(), &pr) }
    if f.root().children().next().map_or(false, |c| c.ty() == nt(N2) && c.children().next().unwrap().ty() == nt(N3)) { reach(1) }
    if f.root().children().next().map_or(false, |c| c.ty() == nt(N3) && c.children().next().unwrap().ty() == nt(N2)) { reach(2) }
    obs(y.len() as u64); for e in &y { obs(e.0 as u64 + e.1 .0 as u64 * 4 + (e.2 as u64) * 1024) }
}
fn c17_ctx() {
    // contextual tokens of any text over a lexer whose tokens have several lengths
    let rules = ["a", "b", "c", "bc", "aab"];
    let lx = RegexLexer::new(std::iter::once(LexRule::new(nt(WS), " ", None)).chain(rules.iter().enumerate().map(|(i, r)| LexRule::new(nt(A + i as u32), r, None))).collect());
    let mut g = G::new();
    let k = 1 + choose(3);
    let x = g.add(Expr::ContextualToken(NodeTypeRef(CT), over(b"abc", k))); let x = g.node(N1, x);
    let any = g.add(Expr::Any); let o = g.or(&[x, any]);
    let r = g.add(Expr::Rep(o)); g.start(r);
    let text = over(b"abc ", param(0) as usize);
    let t = text.as_bytes();
    let mut tk = vec![]; let mut i = 0;
    while i < t.len() {
        if t[i] == b' ' { i += 1; continue }
        let (ty, n) = if t[i..].starts_with(b"aab") { (A + 4, 3) } else if t[i..].starts_with(b"bc") { (A + 3, 2) } else { (tok_of(t[i]), 1) };
        tk.push((ty, i, i + n)); i += n;
    }
    let def = g.finish(no_binder);
    let l = lang(lx, def.clone());
    let f = l.parse(text.clone());
    lossless(&f, &text);
    let want = Ref { rules: &def.syntactical_rules, text: t, toks: &tk }.run();
    let (mut x, mut y) = (vec![], vec![]);
    flat_ref(&want, &mut x); flat_real(f.root(), false, &mut y);
    assert(x == y, 1);
    if y.iter().any(|e| e.1 == nt(CT) && e.3 - e.2 > 1) { reach(1) }
    obs(y.len() as u64); for e in &y { obs(e.0 as u64 + e.1 .0 as u64 * 4 + (e.2 as u64) * 1024) }
}
fn c20_layer() {
    // whatever stands between matching brackets stays in their node and leaves the rest of the file alone
    let lx = lexer(&[A, B, LP, RP]);
    let mut g = G::new();
    let (a, b, lp, rp, any) = (g.tok(A), g.tok(B), g.tok(LP), g.tok(RP), g.add(Expr::Any));
    let bal = ExprRef(g.rules.len() as u32); g.rules.push(Expr::Eof);
    let nrp = g.add(Expr::Not(rp)); let other = g.and(&[nrp, any]); let or = g.or(&[bal, other]); let many = g.add(Expr::Rep(or));
    g.rules[bal.0 as usize] = Expr::And(vec![lp, many, rp], None);
    let ab = g.and(&[a, b]); let n1 = g.node(N1, ab);
    let content = match param(1) { 0 => g.add(Expr::Rep(n1)), 1 => { let r = g.add(Expr::Rep(n1)); let e = g.add(Expr::Eof); g.and(&[n1, r, e]) } 2 => { let w = g.add(Expr::WithSkip(a, n1)); g.add(Expr::Rep(w)) }
        // a contextual token that could reach past the closing bracket
        _ => { let x = g.add(Expr::ContextualToken(NodeTypeRef(CT), ")b".to_string())); let y = g.add(Expr::ContextualToken(NodeTypeRef(CT), "b)".to_string())); let o = g.or(&[x, y, any]); g.add(Expr::Rep(o)) } };
    let ml = g.add(Expr::Any); // the body of the layer: bracket, content up to the end, whatever is left
    let body = g.add(Expr::And(vec![ml, content], Some(1)));
    let block = g.add(Expr::Layer(bal, body)); let block = g.node(N2, block);
    let tail = g.node(N3, b); let tail = g.add(Expr::Rep(tail));
    let all = g.and(&[block, tail]);
    g.start(all);
    let inside = over(b"ab()", param(0) as usize);
    let mut d = 0i32; for c in inside.bytes() { if c == b'(' { d += 1 } if c == b')' { d -= 1 } assume(d >= 0) } assume(d == 0);
    let text = format!("({})bb", inside);
    let def = g.finish(no_binder);
    let l = lang(lx, def.clone());
    let f = l.parse(text.clone());
    lossless(&f, &text);
    let cs: Vec<Node> = f.root().children().collect();
    assert(cs.len() == 3 && cs[0].ty() == nt(N2) && cs[1].ty() == nt(N3) && cs[2].ty() == nt(N3), 1);
    assert(u(cs[0].range().end()) as usize == inside.len() + 2, 2);
    if inside.contains('(') { reach(1) }
    if cs[0].children().any(|c| c.ty() == ERROR) { reach(2) }
    let tk = tokens(text.as_bytes());
    let want = Ref { rules: &def.syntactical_rules, text: text.as_bytes(), toks: &tk }.run();
    let (mut x, mut y) = (vec![], vec![]);
    flat_ref(&want, &mut x); flat_real(f.root(), false, &mut y);
    assert(x == y, 3);
    obs(y.len() as u64);
}
fn c19_binder() {
    let lx = lexer(&[A, B]);
    let mut g = G::new();
    let (a, b) = (g.tok(A), g.tok(B));
    let inner = if param(1) == 1 { g.add(Expr::Rep(b)) } else { g.add(Expr::Opt(b)) };
    let inner = g.node(N1, inner);
    let outer = g.add(Expr::And(vec![inner, a], Some(1)));
    let outer = g.node(N2, outer);
    let third = g.or(&[a, b]); let third = g.node(N3, third); let third = g.add(Expr::Opt(third));
    let all = g.and(&[outer, third]);
    g.start(all);
    for t in 0..4 { for s in 0..2 { unsafe { BIND[t][s] = range(3) } } }
    let text = over(b"ab ", param(0) as usize);
    let def = g.finish(sym_binder);
    let l = lang(lx, def.clone());
    let f = l.parse(text.clone());
    lossless(&f, &text);
    let tk = tokens(text.as_bytes());
    let want = Ref { rules: &def.syntactical_rules, text: text.as_bytes(), toks: &tk }.run();
    let (mut x, mut y) = (vec![], vec![]);
    Place { text: text.as_bytes(), pos: 0 }.go(&want, &mut x);
    flat_real(f.root(), true, &mut y);
    if x != y { print(&format!("{:?} {:?}\nwant {:?}\ngot  {:?}", text, unsafe { BIND }, x, y)) }
    assert(x == y, 1);
    if y.iter().any(|e| e.1 == nt(WS)) && tk.len() > 1 { reach(1) }
    obs(y.len() as u64);
}
fn c10_lossless() {
    // any grammar, any text (with foreign characters), any whitespace binder: the tree is the text
    let lx = lexer(&[A, B]);
    for t in 0..4 { for s in 0..2 { unsafe { BIND[t][s] = 2 * range(2) } } }
    let text = over(b"ab !", param(1) as usize);
    let mut g = G::new();
    let e = gen(&mut g, param(0) as usize);
    let n = g.node(N2, e);
    let n = if param(2) == 1 { g.add(Expr::Rep(n)) } else { n };
    assume(param(2) == 0 || !g.nullable(e));
    g.start(n);
    let l = lang(lx, g.finish(sym_binder));
    let f = l.parse(text.clone());
    lossless(&f, &text);
    assert(f.root().ty() == nt(FILE), 1);
    let mut y = vec![]; flat_real(f.root(), true, &mut y);
    if y.iter().any(|e| e.1 == nt(WS)) && y.iter().any(|e| e.1 == ERROR && e.0 == 0) { reach(1) }
    obs(y.len() as u64);
}
fn c17_expr() {
    let lx = lexer(&[A, B]);
    let text = over(b"ab ", param(1) as usize);
    let mut g = G::new();
    let e = gen(&mut g, param(0) as usize);
    let n = g.node(N2, e);
    g.start(n);
    if compare(lx, g, &text, no_binder) > 4 { reach(1) }
}
fn c18_state() {
    let lx = lexer(&[A, B]);
    let text = over(b"ab", param(1) as usize);
    let mut g = G::new();
    let x = if param(2) == 2 {
        // lookahead within lookahead
        let (x, y) = (leaf_s(&mut g, false), gen_s(&mut g, param(0) as usize, false));
        let x = g.add(Expr::Not(x));
        let e = g.and(&[x, y]);
        let e = match choose(3) { 0 => g.add(Expr::Pub { ty: NodeTypeRef(N4), body: e, replaceable: true }), 1 => g.add(Expr::Cached(e)), _ => { let a = g.tok(A); let a = g.node(N3, a); let e = g.node(N4, e); g.add(Expr::Inject(a, e)) } };
        let e = g.add(Expr::Not(e));
        let e = if choose(2) == 0 { g.add(Expr::Not(e)) } else { e };
        let any = g.add(Expr::Any);
        let (any, fin) = (g.node(N3, any), g.tok(B));
        let any = g.add(Expr::Opt(any)); let fin = g.add(Expr::Opt(fin));
        g.and(&[e, any, fin])
    } else { gen_s(&mut g, param(0) as usize, false) };
    // observe the state the expression leaves behind
    let p1 = g.add(Expr::PrevIs(vec![NodeTypeRef(N1)])); let p1 = g.node(N5, p1); let p1 = g.add(Expr::Opt(p1));
    let p2 = g.add(Expr::PrevIs(vec![NodeTypeRef(N2), NodeTypeRef(N3)])); let p2 = g.node(FILE, p2); let p2 = g.add(Expr::Opt(p2));
    let p3 = g.add(Expr::IsIn(Context(0))); let p3 = g.node(N4, p3); let p3 = g.add(Expr::Opt(p3));
    let x = g.add(Expr::Opt(x));
    let e = g.and(&[x, p1, p2, p3]);
    let e = g.add(Expr::Pub { ty: NodeTypeRef(N5), body: e, replaceable: true });
    let e = if param(2) == 1 { g.add(Expr::Enter(Context(0), e)) } else { e };
    g.start(e);
    if compare(lx, g, &text, no_binder) > 6 { reach(1) }
}
}
