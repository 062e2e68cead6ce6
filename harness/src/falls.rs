//! The fall grammar language: totality, losslessness, incremental reparsing.
use crate::langs::*;
use crate::rt::*;
use fall_tree::{tu, TextEditBuilder};
use fall_tree::{NodeType, ERROR};
use lang_fall_syntax::*;
const TOKS: &[&str] = &["rule ", "a ", "{", "}", "|", "<", ">", "?", "*", "(", ")", ",", "'t'", "pub ", "#[a]", "tokenizer ", "ast ", "r\"x\"", "test ", "node ", ":", " "];
const FEW: &[&str] = &["rule ", "a ", "{", "}", "pub ", "#[a]", "?"];
/// The language, with its lexer and grammar tables built before any input is symbolic.
fn warm() -> &'static fall_tree::Language { let l = lang_fall(); l.parse(r##"tokenizer { #[a] b r"x" } pub rule a { <b 'c'>? | d* } ast { node a : b {} } !"##); l }
/// A token: type, text, range.
type Tok = (NodeType, String, u32, u32);
fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes(); let mut i = 0; let mut v = vec![];
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    while i < b.len() {
        let st = i;
        let ty = match b[i] {
            b' ' => { i += 1; continue }
            b'r' if b.get(i + 1) == Some(&b'"') => { i += 2; while b[i] != b'"' { i += 1 } i += 1; HASH_STRING }
            b'\'' => { i += 1; while b[i] != b'\'' { i += 1 } i += 1; SIMPLE_STRING }
            c if word(c) => { while i < b.len() && word(b[i]) { i += 1 } if b[st..i].iter().all(|c| c.is_ascii_digit()) { NUMBER } else { IDENT } }
            c => { i += 1; match c { b'|' => PIPE, b'*' => STAR, b'?' => QUESTION, b'.' => DOT, b',' => COMMA, b':' => COLON, b'#' => HASH, b'{' => L_CURLY, b'}' => R_CURLY, b'[' => L_SQUARE, b']' => R_SQUARE, b'<' => L_ANGLE, b'>' => R_ANGLE, b'(' => L_PAREN, b')' => R_PAREN, _ => EQ } }
        };
        v.push((ty, s[st..i].to_string(), st as u32, i as u32));
    }
    v
}
/// A recursive-descent reader of grammar files, producing the tree they have; None: not well formed.
struct Reader { t: Vec<Tok>, i: usize, out: Vec<Ev> }
impl Reader {
    fn at(&self, ty: NodeType) -> bool { self.i < self.t.len() && self.t[self.i].0 == ty }
    fn kw(&self, k: &str) -> bool { self.at(IDENT) && self.t[self.i].1 == k }
    fn leaf(&mut self, ty: NodeType) { let t = &self.t[self.i]; self.out.push((0, ty, t.2, t.3)); self.i += 1 }
    fn need(&mut self, ty: NodeType) -> Option<()> { if self.at(ty) { self.leaf(ty); Some(()) } else { None } }
    fn open(&mut self, ty: NodeType) { self.out.push((1, ty, 0, 0)) }
    fn close(&mut self) { self.out.push((2, ERROR, 0, 0)) }
    fn file(&mut self) -> Option<()> {
        self.open(FALL_FILE);
        while self.i < self.t.len() {
            if self.kw("tokenizer") {
                self.open(TOKENIZER_DEF); self.leaf(TOKENIZER); self.need(L_CURLY)?;
                while !self.at(R_CURLY) {
                    self.open(LEX_RULE);
                    if self.at(HASH) { self.attributes()? }
                    self.need(IDENT)?; self.string()?;
                    if self.at(SIMPLE_STRING) || self.at(HASH_STRING) { self.string()? }
                    self.close();
                }
                self.leaf(R_CURLY); self.close();
            } else if self.kw("verbatim") || self.kw("test") {
                let (n, k) = if self.kw("test") { (TEST_DEF, TEST) } else { (VERBATIM_DEF, VERBATIM) };
                self.open(n); self.leaf(k); self.need(HASH_STRING)?; self.close();
            } else if self.kw("ast") {
                self.open(AST_DEF); self.leaf(AST); self.need(L_CURLY)?;
                while !self.at(R_CURLY) { self.ast_form()? }
                self.leaf(R_CURLY); self.close();
            } else {
                self.open(SYN_RULE);
                if self.at(HASH) { self.attributes()? }
                if self.kw("pub") { self.leaf(PUB) }
                if !self.kw("rule") { return None }
                self.leaf(RULE); self.need(IDENT)?;
                if self.at(L_PAREN) {
                    self.open(PARAMETERS); self.leaf(L_PAREN);
                    while !self.at(R_PAREN) {
                        self.open(PARAMETER); self.need(IDENT)?; self.close();
                        if self.at(COMMA) { self.leaf(COMMA) } else if !self.at(R_PAREN) { return None }
                    }
                    self.leaf(R_PAREN); self.close();
                }
                self.block()?; self.close();
            }
        }
        self.close();
        Some(())
    }
    fn string(&mut self) -> Option<()> {
        if !self.at(SIMPLE_STRING) && !self.at(HASH_STRING) { return None }
        let ty = self.t[self.i].0;
        self.open(STRING); self.leaf(ty); self.close(); Some(())
    }
    fn attributes(&mut self) -> Option<()> {
        self.open(ATTRIBUTES); self.leaf(HASH); self.need(L_SQUARE)?;
        while !self.at(R_SQUARE) {
            self.open(ATTRIBUTE); self.need(IDENT)?;
            if self.at(L_PAREN) {
                self.leaf(L_PAREN);
                self.open(ATTRIBUTE_VALUE);
                if self.at(NUMBER) { self.leaf(NUMBER) } else { self.need(IDENT)? }
                self.close();
                self.need(R_PAREN)?;
            }
            self.close();
            if self.at(COMMA) { self.leaf(COMMA) } else if !self.at(R_SQUARE) { return None }
        }
        self.leaf(R_SQUARE); self.close(); Some(())
    }
    fn ast_form(&mut self) -> Option<()> {
        let (n, k) = if self.kw("node") { (AST_NODE_DEF, NODE) } else if self.kw("class") { (AST_CLASS_DEF, CLASS) } else if self.kw("trait") { (AST_TRAIT_DEF, TRAIT) } else { return None };
        self.open(n); self.leaf(k); self.need(IDENT)?;
        if k == NODE && self.at(COLON) {
            self.leaf(COLON);
            while self.at(IDENT) { self.leaf(IDENT); if self.at(COMMA) { self.leaf(COMMA) } else if !self.at(L_CURLY) { return None } }
        }
        self.need(L_CURLY)?;
        while !self.at(R_CURLY) {
            if k == CLASS { self.need(IDENT)?; continue }
            self.open(METHOD_DEF); self.need(IDENT)?;
            self.open(AST_SELECTOR); self.need(IDENT)?;
            let dot = |r: &Self, i: usize| r.t.get(i).map_or(false, |t| t.0 == DOT) && r.t.get(i + 1).map_or(false, |t| t.0 == IDENT);
            if self.at(QUESTION) { self.leaf(QUESTION); if dot(self, self.i) { self.leaf(DOT); self.leaf(IDENT) } }
            else if dot(self, self.i) { self.leaf(DOT); self.leaf(IDENT) }
            else if self.at(STAR) { self.leaf(STAR) }
            self.close(); self.close();
        }
        self.leaf(R_CURLY); self.close(); Some(())
    }
    fn block(&mut self) -> Option<()> {
        self.open(BLOCK_EXPR); self.need(L_CURLY)?;
        loop {
            self.open(SEQ_EXPR);
            while !self.at(PIPE) && !self.at(R_CURLY) { self.expr()? }
            self.close();
            if self.at(PIPE) { self.leaf(PIPE) } else { break }
        }
        self.leaf(R_CURLY); self.close(); Some(())
    }
    fn expr(&mut self) -> Option<()> {
        let st = self.out.len();
        if self.at(L_ANGLE) {
            self.open(CALL_EXPR); self.leaf(L_ANGLE); self.need(IDENT)?;
            while !self.at(R_ANGLE) { self.expr()? }
            self.leaf(R_ANGLE); self.close();
        } else if self.at(L_CURLY) { self.block()? }
        else { self.open(REF_EXPR); if self.at(IDENT) { self.leaf(IDENT) } else { self.need(SIMPLE_STRING)? } self.close() }
        loop {
            let (n, k) = if self.at(QUESTION) { (OPT_EXPR, QUESTION) } else if self.at(STAR) { (REP_EXPR, STAR) } else { return Some(()) };
            self.out.insert(st, (1, n, 0, 0)); self.leaf(k); self.close();
        }
    }
}
const TOP: &[&str] = &["rule ", "a ", "{}", "pub ", "#[a]", "(", ")", ",", "tokenizer ", "ast ", "verbatim ", "test ", "r\"x\"", "{", "}"];
const BODY: &[&str] = &["a ", "{", "}", "|", "<", ">", "?", "*", "'t'", "rule "];
const LEX: &[&str] = &["a ", "'t'", "r\"x\"", "#[", "]", "(", ")", ",", "1 ", "node "];
const ASTS: &[&str] = &["node ", "class ", "trait ", "a ", "{", "}", ":", ",", "*", "?"];
const METHODS: &[&str] = &["a ", "b ", "?", ".", "*", "node ", "}class x{", ","];
crate::entries! {
fn fall_tree() { let l = warm();
    let n = param(0) as usize;
    let (alpha, pre, post) = match param(1) {
        0 => (TOP, "", ""), 1 => (BODY, "rule a {", "} rule b {c}"), 2 => (BODY, "rule a { <f ", "> }"), 3 => (LEX, "tokenizer {", "} rule b {c}"),
        4 => (LEX, "#[", "] pub rule b {c}"), 5 => (ASTS, "ast {", "} rule b {c}"), 6 => (METHODS, "ast { node a {", "} }"), 7 => (TOP, "rule a(", "{} "), _ => (ASTS, "ast { node a ", "}"),
    };
    let (mid, _) = pieces(alpha, n);
    let text = format!("{}{}{}", pre, mid, post);
    let mut r = Reader { t: lex(&text), i: 0, out: vec![] };
    let f = any_text(l, text);
    match r.file() {
        Some(()) => {
            reach(1);
            let mut got = vec![]; flat(f.root(), false, &mut got);
            if got != r.out { print(&format!("{:?}\ngot  {:?}\nwant {:?}", f.text().to_string(), got, r.out)) }
            assert(got == r.out, 1);
        }
        None => { reach(2); if !has_error(&f) { print(&f.text().to_string()) } assert(has_error(&f), 2) }
    }
}
fn fall_raw() { let l = warm();
    let (k, m) = (choose(34), choose(34));
    let s = format!("r{}\"x\"{} ", "#".repeat(k), "#".repeat(m));
    let f = any_text(l, s);
    let mut v = vec![]; flat(f.root(), true, &mut v);
    let lit = v.iter().find(|e| e.0 == 0).map(|e| (e.1, e.2, e.3));
    if m >= k { reach(1); assert(lit == Some((HASH_STRING, 0, (1 + k + 3 + k) as u32)), 1) } else { reach(2); assert(lit.map_or(true, |l| l.0 != HASH_STRING), 2) }
}
fn fall_raw_edit() { let l = warm();
    // text behind a token that turns it into the beginning of a longer one
    let f = l.parse("r## ".to_string());
    let mut b = TextEditBuilder::new(f.text()); b.insert(tu(3), "\"x\"##".to_string());
    check_edit(l, &f, b.build(), false);
}
fn fall_bytes() { let l = warm(); any_text(l, ascii(param(0) as usize)); reach(1) }
fn fall_tokens() { let l = warm();
    let (t, _) = pieces(TOKS, param(0) as usize);
    let t = match param(1) { 0 => t, 1 => format!("rule a {{{}}}", t), 2 => format!("tokenizer {{{}}}", t), 3 => format!("ast {{{}}}", t), _ => format!("ast {{ node a {{{}}}", t) };
    let f = any_text(l, t);
    if !has_error(&f) { reach(1) } else { reach(2) }
}
fn fall_edit() { let l = warm();
    let (pre, post) = match param(3) { 0 => ("", ""), 1 => ("rule a {", "} rule b {}"), _ => ("rule a{} ", " rule b{}") };
    piece_edit(l, if param(4) == 1 { FEW } else { TOKS }, pre, post, param(0) as usize, param(1) as usize, param(2) as usize)
}
}
