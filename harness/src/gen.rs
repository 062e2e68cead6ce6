//! The parser generator: the parser a grammar file turns into does what the grammar says.
use crate::langs::*;
use crate::parse::{self, nt, G};
use crate::rt::*;
use fall_parse::serde_json::Value;
use fall_parse::*;
use fall_tree::{NodeType, ERROR};
use std::sync::Arc;
fn warm() { let l = lang_fall_syntax::lang_fall(); l.parse(r##"tokenizer { #[a] b r"x" } pub rule a { <b 'c'>? | d* } ast { node a : b {} } !"##); }
/// What the generated file is rendered from, if the generator accepts the grammar.
fn generate(s: &str) -> Option<Value> { lang_fall::analyse(s.to_string()).analyse(|a| fall_gen::codegen_context(a).ok()) }
fn exprs(c: &Value) -> Vec<Expr> { runtime::parser_from_str(c["parser_json"].as_str().unwrap()) }
/// every number in the table is one the generated parser can look up
fn closed(rules: &[Expr], types: usize) {
    let e = |x: ExprRef| assert((x.0 as usize) < rules.len(), 11);
    let t = |x: NodeTypeRef| assert(x.0 > 0 && x.0 as usize <= types, 12);
    for r in rules {
        match *r {
            Expr::Pub { ty, body, .. } | Expr::PubReplace { ty, body } => { t(ty); e(body) }
            Expr::Or(ref v) => v.iter().for_each(|&x| e(x)),
            Expr::And(ref v, c) => { v.iter().for_each(|&x| e(x)); assert(c.map_or(true, |c| c <= v.len()), 13) }
            Expr::Token(ty) | Expr::ContextualToken(ty, _) => t(ty),
            Expr::Rep(x) | Expr::Opt(x) | Expr::Not(x) | Expr::Enter(_, x) | Expr::Exit(_, x) | Expr::Cached(x) => e(x),
            Expr::WithSkip(x, y) | Expr::Layer(x, y) | Expr::Inject(x, y) => { e(x); e(y) }
            Expr::Pratt(ref p) => {
                p.atoms.iter().for_each(|&x| e(x));
                p.prefixes.iter().for_each(|p| { t(p.ty); e(p.op) });
                p.infixes.iter().for_each(|p| { t(p.ty); e(p.op) });
            }
            Expr::Call(x, ref a) => { e(x); a.iter().for_each(|p| e(p.1)) }
            Expr::PrevIs(ref v) => v.iter().for_each(|&x| t(x)),
            _ => (),
        }
    }
}
const BODY: &[&str] = &["'a' ", "n ", "p ", "r ", "{", "}", "|", "<", ">", "?", "*", "commit ", "not ", "r'x' "];
const CALLS: &[&str] = &["<", ">", "a ", "is_in ", "enter ", "prev_is ", "commit ", "'a' ", "{", "}", "q ", "n ", "not "];
const ATTRS: &[&str] = &["#[pratt] ", "#[atom] ", "#[bin(1)] ", "#[prefix] ", "#[replaces] ", "#[replaceable] ", "#[cached] ", "#[type(n)] ", "#[type(z)] ", "pub ", "rule ", "r ", "{ n 'a' }", "{ 'a' | r }", "{}"];
const TOKS: &[&str] = &["#[skip] ", "#[contextual] ", "#[other] ", "w ", "a ", "'x' ", "r'x' ", "r\"x+\" ", "'f' ", "test "];
const NODES: &[&str] = &["node ", "class ", "trait ", "n ", "_ ", "a ", "{", "}", ":", ",", "?", ".", "*"];
const METH: &[&str] = &["m ", "n ", "a ", "x ", "z__z ", "?", ".", "*", "text "];
// ------------------------------------------------------------------ grammars by construction
/// A grammar file and what it means: `g` is the reference, `rules` the text.
struct M { g: G, rules: String, n: usize, arg: u32 }
impl M {
    fn rule(&mut self, attrs: &str, head: &str, params: &str, body: &str) { self.rules.push_str(&format!("{} {}{} {{ {} }}\n", attrs, head, params, body)) }
    fn fresh(&mut self) -> String { self.n += 1; format!("r{}", self.n) }
    /// A rule around an expression. In a rule with parameters the argument is passed on.
    fn wrap(&mut self, attrs: &str, public: bool, ty: &str, body: (String, ExprRef), scope: Option<u32>, make: &dyn Fn(&mut G, ExprRef) -> ExprRef) -> (String, ExprRef) {
        let name = self.fresh();
        let attrs = if public { if attrs == "" { format!("#[type({})]", ty) } else { format!("#[{}, type({})]", attrs, ty) } } else if attrs == "" { String::new() } else { format!("#[{}]", attrs) };
        let head = format!("{}rule {}", if public { "pub " } else { "" }, name);
        let e = make(&mut self.g, body.1);
        match scope {
            None => { self.rule(&attrs, &head, "", &body.0); (name, e) }
            Some(_) => { let p = "(p)"; self.rule(&attrs, &head, p, &body.0); (format!("<{} p>", name), e) }
        }
    }
}
fn leaf(m: &mut M, scope: Option<u32>) -> (String, ExprRef) {
    match choose(if scope.is_some() { 10 } else { 9 }) {
        0 => ("'a'".into(), m.g.tok(parse::A)),
        1 => ("b".into(), m.g.tok(parse::B)),
        2 => ("n1".into(), { let a = m.g.tok(parse::A); m.g.node(parse::N1, a) }),
        3 => ("<is_in 'k'>".into(), m.g.add(Expr::IsIn(Context(0)))),
        4 => ("<prev_is n1 n2>".into(), m.g.add(Expr::PrevIs(vec![NodeTypeRef(parse::N1), NodeTypeRef(parse::N2)]))),
        5 => ("<any>".into(), m.g.add(Expr::Any)),
        6 => ("<eof>".into(), m.g.add(Expr::Eof)),
        7 => ("'ab'".into(), m.g.add(Expr::ContextualToken(NodeTypeRef(parse::CT), "ab".to_string()))),
        8 => ("{}".into(), m.g.and(&[])),
        _ => ("p".into(), m.g.add(Expr::Var(Arg(scope.unwrap())))),
    }
}
fn two(m: &mut M, d: usize, sx: Option<u32>, sy: Option<u32>) -> ((String, ExprRef), (String, ExprRef)) {
    if choose(2) == 0 { let x = expr(m, d - 1, sx); (x, leaf(m, sy)) } else { let x = leaf(m, sx); (x, expr(m, d - 1, sy)) }
}
/// An expression as the argument of a call or the operand of `?` and `*`, and what it means.
fn expr(m: &mut M, d: usize, scope: Option<u32>) -> (String, ExprRef) {
    if d == 0 { return leaf(m, scope) }
    let k = choose(19);
    if k < 7 {
        let inner = if k == 6 { m.arg += 1; Some(m.arg) } else { scope };
        let ((x, a), (y, b)) = two(m, d, inner, scope);
        return match k {
            0 => (format!("{{{} {}}}", x, y), m.g.and(&[a, b])),
            1 => (format!("{{{} | {}}}", x, y), m.g.or(&[a, b])),
            2 => (format!("{{{} < commit > {}}}", x, y), m.g.add(Expr::And(vec![a, b], Some(1)))),
            3 => (format!("<with_skip {} {}>", x, y), m.g.add(Expr::WithSkip(a, b))),
            4 => (format!("<layer {} {}>", x, y), m.g.add(Expr::Layer(a, b))),
            5 => {
                let x = m.wrap("", true, "n3", (x, a), scope, &|g, e| g.node(parse::N3, e)); let y = m.wrap("", true, "n4", (y, b), scope, &|g, e| g.node(parse::N4, e));
                (format!("<inject {} {}>", x.0, y.0), m.g.add(Expr::Inject(x.1, y.1)))
            }
            _ => {
                let name = m.fresh(); let pos = inner.unwrap();
                // a second parameter before the one that matters
                let b2 = m.g.tok(parse::B);
                m.rule("", &format!("rule {}", name), "(q, p)", &x);
                (format!("<{} b {}>", name, y), m.g.add(Expr::Call(a, vec![(Arg(pos + 50), b2), (Arg(pos), b)])))
            }
        };
    }
    if k == 7 { return leaf(m, scope) }
    let (x, a) = expr(m, d - 1, scope);
    match k {
        8 => (format!("{}?", x), m.g.add(Expr::Opt(a))),
        9 => (format!("<not {}>", x), m.g.add(Expr::Not(a))),
        10 => { assume(!m.g.nullable(a)); (format!("{}*", x), m.g.add(Expr::Rep(a))) }
        11 => m.wrap("", true, "n2", (x, a), scope, &|g, e| g.node(parse::N2, e)),
        12 => m.wrap("replaceable", true, "n4", (x, a), scope, &|g, e| g.add(Expr::Pub { ty: NodeTypeRef(parse::N4), body: e, replaceable: true })),
        13 => m.wrap("replaces", true, "n3", (x, a), scope, &|g, e| g.add(Expr::PubReplace { ty: NodeTypeRef(parse::N3), body: e })),
        14 => (format!("<enter 'k' {}>", x), m.g.add(Expr::Enter(Context(0), a))),
        15 => (format!("<exit 'k' {}>", x), m.g.add(Expr::Exit(Context(0), a))),
        16 => if choose(2) == 0 { m.wrap("cached", false, "", (x, a), scope, &|_, e| e) } else { m.wrap("cached", true, "n2", (x, a), scope, &|g, e| g.node(parse::N2, e)) },
        17 => m.wrap("", false, "", (x, a), scope, &|_, e| e),
        _ => (format!("{{ {} }}", x), a),
    }
}
fn const_of(name: &str) -> Option<u32> {
    Some(match name { "w" => parse::WS, "a" => parse::A, "b" => parse::B, "ct" => parse::CT, "plus" => parse::PLUS, "minus" => parse::MINUS, "file" => parse::FILE, "n1" => parse::N1, "n2" => parse::N2, "n3" => parse::N3, "n4" => parse::N4, "n5" => parse::N5, _ => return None })
}
crate::entries! {
fn gen_total() { warm();
    let n = param(0) as usize;
    let tk = "tokenizer { #[skip] w ' ' a 'a' }";
    let s = match param(1) {
        0 => format!("{} pub rule f {{{}}} pub rule n {{'a'}} rule q(p) {{p}}", tk, pieces(BODY, n).0),
        1 => format!("{} pub rule f {{{}}} pub rule n {{'a'}} rule q(p) {{p}}", tk, pieces(CALLS, n).0),
        2 => format!("{} pub rule n {{'a'}} {}", tk, pieces(ATTRS, n).0),
        3 => format!("tokenizer {{{}}} pub rule f {{ 'x' }}", pieces(TOKS, n).0),
        4 => format!("{} pub rule n {{'a'}} ast {{{}}}", tk, pieces(NODES, n).0),
        _ => format!("{} pub rule n {{'a'}} ast {{ class x {{ n }} node n {{ {} }} }}", tk, pieces(METH, n).0),
    };
    print(&s);
    match generate(&s) {
        Some(c) => { reach(1); let r = exprs(&c); obs(r.len() as u64); closed(&r, c["node_types"].as_array().unwrap().len()) }
        None => { reach(2); obs(0) }
    }
}
fn gen_meaning() { warm();
    let mut m = M { g: G::new(), rules: String::new(), n: 0, arg: 0 };
    let (x, e) = expr(&mut m, param(0) as usize, None);
    let (o, any) = (m.g.add(Expr::Opt(e)), m.g.add(Expr::Any)); let item = m.g.and(&[o, any]); let r = m.g.add(Expr::Rep(item)); m.g.start(r);
    let s = format!("tokenizer {{ #[skip] w ' ' a 'a' #[contextual] ct 'ab' b r\"b\" }}\npub rule file {{ {{ {{ {} }}? <any> }}* }}\n{}pub rule n1 {{ 'a' }} pub rule n2 {{}} pub rule n3 {{}} pub rule n4 {{}}", x, m.rules);
    let text = over(if param(2) == 1 { b"ab " } else { b"ab" }, param(1) as usize);
    run(&s, m.g, &text)
}
fn gen_closure() { warm();
    // rules that call themselves with arguments built from their own parameters
    let mut g = G::new();
    let (a, b) = (g.tok(parse::A), g.tok(parse::B));
    let (p, q) = (g.add(Expr::Var(Arg(0))), g.add(Expr::Var(Arg(1))));
    let me = ExprRef(g.rules.len() as u32); g.rules.push(Expr::Eof);
    // what is passed on for p and for q
    let mut pass = |g: &mut G, p: ExprRef, q: ExprRef| match choose(6) {
        0 => ("p".to_string(), p), 1 => ("q".to_string(), q), 2 => ("{p 'b'}".to_string(), g.and(&[p, b])), 3 => ("{q p}".to_string(), g.and(&[q, p])),
        4 => ("{p | q}".to_string(), g.or(&[p, q])), _ => ("'b'".to_string(), b),
    };
    let (x, xe) = pass(&mut g, p, q); let (y, ye) = pass(&mut g, p, q);
    let call = g.add(Expr::Call(me, vec![(Arg(0), xe), (Arg(1), ye)]));
    let rec = g.and(&[a, call]); let end = g.and(&[p, q]); let or = g.or(&[rec, end]);
    g.rules[me.0 as usize] = Expr::Or(vec![or]);
    let start = g.add(Expr::Call(me, vec![(Arg(0), b), (Arg(1), a)])); let n1 = g.node(parse::N1, start); g.start(n1);
    let s = format!("tokenizer {{ #[skip] w ' ' a 'a' b 'b' }} pub rule file {{ n1 }} pub rule n1 {{ <r 'b' 'a'> }} rule r(p, q) {{ 'a' <r {} {}> | p q }}", x, y);
    let text = over(b"ab", param(0) as usize);
    run(&s, g, &text)
}
fn gen_many() { warm();
    // more parameters and contexts than anybody needs
    let n = 3 + choose(param(0) as usize); let k = choose(3); 
    let k = match k { 0 => 0, 1 => n / 2, _ => n - 1 };
    let mut g = G::new();
    let (a, b) = (g.tok(parse::A), g.tok(parse::B));
    let (s, e) = if choose(2) == 0 {
        let params: Vec<String> = (0..n).map(|i| format!("p{}", i)).collect();
        let args: Vec<&str> = (0..n).map(|i| if i == k { "'a'" } else { "'b'" }).collect();
        (format!("pub rule file {{ <r {}> }} rule r({}) {{ p{} }}", args.join(" "), params.join(", "), k), a)
    } else {
        let x = g.add(Expr::IsIn(Context(0))); let x = g.and(&[x, b]); let x = g.or(&[x, a]);
        let j = choose(2); let j = if j == 0 { k } else { (k + 1) % n };
        let e = if j == k { g.add(Expr::Enter(Context(0), x)) } else { x };
        let all: Vec<String> = (0..n).map(|i| format!("<is_in 'c{}'>", i)).collect();
        (format!("pub rule file {{ <enter 'c{}' {{ <is_in 'c{}'> 'b' | 'a' }}> }} rule all {{ {} }}", j, k, all.join(" ")), e)
    };
    g.start(e);
    let s = format!("tokenizer {{ a 'a' b 'b' }} {}", s);
    let text = over(b"ab", 1);
    run(&s, g, &text)
}
fn gen_pratt() { warm();
    // operator rules: kinds, priorities and order as the attributes say
    let mut g = G::new();
    let (a, plus, minus) = (g.tok(parse::A), g.tok(parse::PLUS), g.tok(parse::MINUS));
    let atom = g.node(parse::N1, a);
    let mut t = PrattTable { atoms: vec![], prefixes: vec![], infixes: vec![] };
    let (mut names, mut rules) = (vec![], String::new());
    let order = choose(2);
    let ty = [parse::N2, parse::N3, parse::N4];
    let mut ops = 0;
    for i in 0..3 {
        let i = if order == 0 { i } else { 2 - i };
        let (op, x) = if i == 0 { (plus, "'+'") } else if i == 1 { (minus, "'-'") } else { (plus, "'+'") };
        let p = choose(4);
        let (attr, pr) = match p { 0 => ("".to_string(), 999), p => (format!("({})", p), p as u32) };
        match choose(4) {
            0 => continue,
            1 => { assume(p > 0); rules.push_str(&format!("#[bin{}] pub rule n{} {{ ex {} ex }}\n", attr, i + 2, x)); t.infixes.push(Infix { ty: NodeTypeRef(ty[i]), op, priority: pr, has_rhs: true }) }
            2 => { rules.push_str(&format!("#[postfix{}] pub rule n{} {{ ex {} }}\n", attr, i + 2, x)); t.infixes.push(Infix { ty: NodeTypeRef(ty[i]), op, priority: pr, has_rhs: false }) }
            _ => { rules.push_str(&format!("#[prefix{}] pub rule n{} {{ {} ex }}\n", attr, i + 2, x)); t.prefixes.push(Prefix { ty: NodeTypeRef(ty[i]), op, priority: pr }) }
        }
        names.push(format!("n{}", i + 2)); ops += 1;
    }
    assume(ops >= 2);
    names.insert(choose(2) * ops, "n1".to_string()); t.atoms.push(atom);
    let e = g.add(Expr::Pratt(Box::new(t))); g.start(e);
    let s = format!("tokenizer {{ a 'a' plus '+' minus '-' }} pub rule file {{ ex }} #[pratt] rule ex {{ {} }}\n#[atom] pub rule n1 {{ 'a' }}\n{}", names.join(" | "), rules);
    let text = over(b"a+-", param(0) as usize);
    run(&s, g, &text)
}
}
/// Turn the grammar `s` into a parser, parse `text` with it and compare with what `g` says.
fn run(s: &str, g: G, text: &str) {
    print(s);
    let c = match generate(s) { Some(c) => c, None => { assert(false, 21); return } };
    let rules = exprs(&c);
    let names = c["node_types"].as_array().unwrap();
    closed(&rules, names.len());
    let con: Vec<u32> = names.iter().map(|n| const_of(n[0].as_str().unwrap()).unwrap()).collect();
    let ty = |n: &str| con[names.iter().position(|x| x[0].as_str() == Some(n)).unwrap()];
    for (i, n) in names.iter().enumerate() { assert(n[1].as_bool() == Some(con[i] == parse::WS), 22) }
    let lx = RegexLexer::new(c["lex_rules"].as_array().unwrap().iter().map(|r| {
        let re: String = fall_parse::serde_json::from_str(r["re"].as_str().unwrap()).unwrap();
        LexRule::new(nt(ty(r["ty"].as_str().unwrap())), &re, None)
    }).collect());
    let mut node_types = vec![ERROR]; node_types.extend(con.iter().map(|&c| nt(c)));
    let def = Arc::new(ParserDefinition { node_types, syntactical_rules: rules, whitespace_binder: parse::no_binder });
    let f = parse::lang(lx, def).parse(text);
    parse::lossless(&f, text);
    let tk = parse::tokens(text.as_bytes());
    let want = parse::Ref { rules: &g.rules, text: text.as_bytes(), toks: &tk }.run();
    let (mut x, mut y) = (vec![], vec![]);
    parse::flat_ref(&want, &mut x); parse::flat_real(f.root(), false, &mut y);
    if x != y { print(&format!("{:?} want {:?}\n got {:?}", text, x, y)) }
    assert(x == y, 1);
    if y.iter().any(|e| e.0 == 1 && e.1 == ERROR) { reach(2) } else { reach(1) }
    obs(y.len() as u64); for e in &y { obs(e.0 as u64 + e.1 .0 as u64 * 4 + (e.2 as u64) * 1024) }
}
