//! Well-formed Rust: texts derived together with the tree they have.
use crate::langs::*;
use crate::rt::*;
use fall_tree::{NodeType, ERROR};
use lang_rust_syntax::*;
use lang_rust_syntax::lang_rust;
fn warm() -> &'static fall_tree::Language { let l = lang_rust(); l.parse(r##"#[a] pub fn f(x: &i32) -> X<'a> { let y = 1 + a.b(); if x => { "s" } } /* */ // !"##); l }
/// Where an expression stands: as a statement (what begins it may end it), in a condition (no structure literals), or neither.
#[derive(Clone, Copy, PartialEq)] enum At { Stmt, Cond, Free }
/// The text written so far and its tree; `tight`: no blanks where tokens do not run together without.
struct G { s: String, out: Vec<Ev>, tight: bool, arms: bool, few: bool }
const GLUE: &[&str] = &["->", "==", "=>", "::", "..", "<=", ">=", "!=", "&=", "|=", "*=", "+=", "-=", "/=", "%=", "^=", "//", "/*", "&&", "||", "<<", ">>", "<-", "-'", "=="];
impl G {
    fn t(&mut self, ty: NodeType, x: &str) {
        if let Some(last) = self.s.chars().last() {
            let first = x.chars().next().unwrap();
            let word = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '\'' || c == '"';
            let pair: String = vec![last, first].into_iter().collect();
            if !self.tight || (word(last) && word(first)) || (GLUE.contains(&&pair[..]) && !(ty == AMPERSAND && self.arms)) { if last != ' ' { self.s.push(' ') } }
        }
        let st = self.s.len() as u32; self.s.push_str(x);
        self.out.push((0, ty, st, self.s.len() as u32));
    }
    fn o(&mut self, ty: NodeType) { self.out.push((1, ty, 0, 0)) }
    fn c(&mut self) { self.out.push((2, ERROR, 0, 0)) }
    fn wrap(&mut self, st: usize, ty: NodeType) { self.out.insert(st, (1, ty, 0, 0)) }
    fn id(&mut self, x: &str) { self.t(IDENT, x) }
    fn seg(&mut self, x: &str) { self.o(PATH_SEGMENT); self.id(x); self.c() }
    /// a path of one segment
    fn path(&mut self, x: &str) { self.o(PATH); self.seg(x); self.c() }
    /// `a::b`, `::a`, …
    fn long_path(&mut self, k: usize) {
        match k {
            0 => self.path("a"),
            1 => { self.o(PATH); self.path("a"); self.t(COLONCOLON, "::"); self.seg("b"); self.c() }
            2 => { self.o(PATH); self.t(COLONCOLON, "::"); self.seg("a"); self.c() }
            3 => { self.o(PATH); self.o(PATH); self.o(PATH_SEGMENT); self.t(SELF, "self"); self.c(); self.c(); self.t(COLONCOLON, "::"); self.seg("b"); self.c() }
            4 => { self.o(PATH); self.o(PATH); self.o(PATH_SEGMENT); self.t(SUPER, "super"); self.c(); self.c(); self.t(COLONCOLON, "::"); self.seg("b"); self.c() }
            _ => { self.o(PATH); self.o(PATH); self.path("a"); self.t(COLONCOLON, "::"); self.seg("b"); self.c(); self.t(COLONCOLON, "::"); self.seg("c"); self.c() }
        }
    }
    fn small(&mut self) { self.o(TYPE_REFERENCE); self.o(PATH_TYPE); self.path("U"); self.c(); self.c() }
    fn ty(&mut self, d: usize) { self.o(TYPE_REFERENCE); self.any_type(d, false); self.c() }
    fn angle(&mut self, open: bool) { if open { self.t(L_ANGLE, "<") } else { self.t(R_ANGLE, ">") } }
    fn generics_in_path(&mut self, k: usize, d: usize) {
        self.o(TYPE_ARGUMENTS); self.angle(true);
        match k {
            0 => {}
            1 => self.ty(d),
            2 => { self.t(LIFETIME, "'a"); self.t(COMMA, ","); self.ty(d) }
            3 => { self.ty(d); self.t(COMMA, ","); self.small(); self.t(COMMA, ",") }
            4 => { self.id("X"); self.t(EQ, "="); self.ty(d) }
            5 => { self.small(); self.t(COMMA, ","); self.id("X"); self.t(EQ, "="); self.ty(d) }
            6 => { self.t(LIFETIME, "'a") }
            _ => { self.t(LIFETIME, "'a"); self.t(COMMA, ","); self.t(LIFETIME, "'b"); self.t(COMMA, ","); self.small(); self.t(COMMA, ","); self.id("X"); self.t(EQ, "="); self.ty(d); self.t(COMMA, ",") }
        }
        self.angle(false); self.c();
    }
    fn any_type(&mut self, d: usize, plus: bool) {
        let k = if d == 0 { 0 } else { choose(37) };
        let ret = |g: &mut G| { g.t(THIN_ARROW, "->"); g.ty(d - 1) };
        match k {
            0 => { self.o(PATH_TYPE); self.path("T"); self.c() }
            1..=5 => { self.o(PATH_TYPE); self.long_path(k); self.c() }
            6..=13 => { self.o(PATH_TYPE); self.o(PATH); self.o(PATH_SEGMENT); self.id("A"); self.generics_in_path(k - 6, d - 1); self.c(); self.c(); self.c() }
            14 => { self.o(PATH_TYPE); self.o(PATH); self.o(PATH); self.o(PATH_SEGMENT); self.id("A"); self.generics_in_path(1, d - 1); self.c(); self.c(); self.t(COLONCOLON, "::"); self.seg("B"); self.c(); self.c() }
            15 => { self.o(PATH_TYPE); self.o(TRAIT_PROJECTION_PATH); self.angle(true); self.ty(d - 1); self.t(AS, "as"); self.small(); self.angle(false); self.t(COLONCOLON, "::"); self.seg("B"); self.c(); self.c() }
            16 | 17 => { self.o(PATH_TYPE); self.o(PATH); self.o(PATH_SEGMENT); self.id("F"); self.o(FN_TRAIT_SUGAR); self.t(L_PAREN, "("); if k == 17 { self.ty(d - 1); self.t(COMMA, ","); self.small() } self.t(R_PAREN, ")"); if k == 17 { self.t(THIN_ARROW, "->"); self.small() } self.c(); self.c(); self.c(); self.c() }
            18 => { self.o(PATH_TYPE); self.o(PATH); self.o(PATH_SEGMENT); self.id("F"); self.o(FN_TRAIT_SUGAR); self.t(L_PAREN, "("); self.t(R_PAREN, ")"); ret(self); self.c(); self.c(); self.c(); self.c() }
            19 => { self.o(REFERENCE_TYPE); self.arms = true; self.t(AMPERSAND, "&"); self.arms = false; self.ty(d - 1); self.c() }
            20 => { self.o(REFERENCE_TYPE); self.t(AMPERSAND, "&"); self.t(LIFETIME, "'a"); self.t(MUT, "mut"); self.ty(d - 1); self.c() }
            21 => { self.o(REFERENCE_TYPE); self.t(AMPERSAND, "&"); self.t(MUT, "mut"); self.ty(d - 1); self.c() }
            22 => { self.o(POINTER_TYPE); self.t(STAR, "*"); self.t(CONST, "const"); self.ty(d - 1); self.c() }
            23 => { self.o(POINTER_TYPE); self.t(STAR, "*"); self.t(MUT, "mut"); self.ty(d - 1); self.c() }
            24 => { self.o(PLACEHOLDER_TYPE); self.t(UNDERSCORE, "_"); self.c() }
            25 => { self.o(UNIT_TYPE); self.t(L_PAREN, "("); self.t(R_PAREN, ")"); self.c() }
            26 => { self.o(PAREN_TYPE); self.t(L_PAREN, "("); self.o(TYPE_REFERENCE); self.any_type(d - 1, true); self.c(); self.t(R_PAREN, ")"); self.c() }
            27 | 28 => { self.o(TUPLE_TYPE); self.t(L_PAREN, "("); self.ty(d - 1); self.t(COMMA, ","); if k == 28 { self.small() } self.t(R_PAREN, ")"); self.c() }
            29 => { self.o(NEVER_TYPE); self.t(BANG, "!"); self.c() }
            30 => { self.o(ARRAY_TYPE); self.t(L_BRACK, "["); self.ty(d - 1); self.t(R_BRACK, "]"); self.c() }
            31 => { self.o(ARRAY_TYPE); self.t(L_BRACK, "["); self.small(); self.t(SEMI, ";"); self.len(); self.t(R_BRACK, "]"); self.c() }
            32 => { self.o(FN_POINTER_TYPE); self.t(FN, "fn"); self.t(L_PAREN, "("); self.o(VALUE_PARAM); self.ty(d - 1); self.c(); self.t(R_PAREN, ")"); self.t(THIN_ARROW, "->"); self.small(); self.c() }
            33 => { self.o(FN_POINTER_TYPE); self.o(LINKAGE); self.t(EXTERN, "extern"); self.t(STRING, "\"C\""); self.c(); self.t(FN, "fn"); self.t(L_PAREN, "("); self.o(VALUE_PARAM); self.simple_pattern("x"); self.t(COLON, ":"); self.ty(d - 1); self.c(); self.t(COMMA, ","); self.t(R_PAREN, ")"); self.c() }
            34 => { self.o(FOR_TYPE); self.t(FOR, "for"); self.o(TYPE_PARAMETERS); self.angle(true); self.o(LIFETIME_PARAMETER); self.t(LIFETIME, "'a"); self.c(); self.angle(false); self.c(); self.ty(d - 1); self.c() }
            35 => { self.o(FN_POINTER_TYPE); self.t(FN, "fn"); self.t(L_PAREN, "("); self.t(R_PAREN, ")"); ret(self); self.c() }
            _ => {
                // several bounds: where a type may have them
                assume(plus);
                self.o(PATH_TYPE); self.path("T"); self.c();
                self.t(PLUS, "+"); self.o(TYPE_BOUND); self.t(LIFETIME, "'a"); self.c();
                self.t(PLUS, "+"); self.o(TYPE_BOUND); self.o(PATH_TYPE); self.path("Q"); self.c(); self.c();
            }
        }
    }
    /// the length of an array: any expression
    fn len(&mut self) {
        match choose(5) {
            0 => self.num(),
            1 => { self.o(CALL_EXPR); self.pe("f"); self.t(L_PAREN, "("); self.o(VALUE_ARGUMENT); self.num(); self.c(); self.t(R_PAREN, ")"); self.c() }
            2 => { self.o(COMPARISON); self.pe("a"); self.t(L_ANGLE, "<"); self.pe("b"); self.c() }
            3 => { self.o(BLOCK_EXPR); self.t(L_CURLY, "{"); self.o(EXPR_STMT); self.o(CALL_EXPR); self.pe("f"); self.t(L_PAREN, "("); self.t(R_PAREN, ")"); self.c(); self.c(); self.t(R_CURLY, "}"); self.c() }
            _ => { self.o(STRUCT_LITERAL); self.path("S"); self.t(L_CURLY, "{"); self.o(STRUCT_LITERAL_FIELD); self.id("x"); self.c(); self.t(R_CURLY, "}"); self.c() }
        }
    }
    fn num(&mut self) { self.o(LITERAL); self.t(NUMBER, "1"); self.c() }
    fn pe(&mut self, x: &str) { self.o(PATH_EXPR); self.path(x); self.c() }
    fn simple_pattern(&mut self, x: &str) { self.o(PATH_PATTERN); self.path(x); self.c() }
    fn pat(&mut self, d: usize) {
        let k = if d == 0 { 1 } else { choose(28) };
        let tuple = |g: &mut G, f: &mut dyn FnMut(&mut G)| { g.o(TUPE_STRUCT_PATTERN); g.path("S"); g.t(L_PAREN, "("); f(g); g.t(R_PAREN, ")"); g.c() };
        let fields = |g: &mut G, f: &mut dyn FnMut(&mut G)| { g.o(STRUCT_PATTERN); g.path("S"); g.t(L_CURLY, "{"); f(g); g.t(R_CURLY, "}"); g.c() };
        match k {
            0 => { self.o(WILDCARD_PATTERN); self.t(UNDERSCORE, "_"); self.c() }
            1 => self.simple_pattern("x"),
            2 => { self.o(PATH_PATTERN); self.long_path(1); self.c() }
            3 => { self.o(PATH_PATTERN); self.long_path(2); self.c() }
            4 => tuple(self, &mut |_| {}),
            5 => tuple(self, &mut |g| g.pat(d - 1)),
            6 => tuple(self, &mut |g| { g.pat(d - 1); g.t(COMMA, ","); g.simple_pattern("y"); g.t(COMMA, ",") }),
            7 => tuple(self, &mut |g| g.t(DOTDOT, "..")),
            8 => tuple(self, &mut |g| { g.pat(d - 1); g.t(COMMA, ","); g.t(DOTDOT, ".."); }),
            9 => tuple(self, &mut |g| { g.simple_pattern("x"); g.t(COMMA, ","); g.pat(d - 1); g.t(COMMA, ","); g.t(DOTDOT, ".."); g.t(COMMA, ",") }),
            10 => fields(self, &mut |_| {}),
            11 => fields(self, &mut |g| { g.o(STRUCT_PATTERN_FIELD); g.o(BINDING_PATTERN); g.id("x"); g.c(); g.c(); }),
            12 => fields(self, &mut |g| { g.o(STRUCT_PATTERN_FIELD); g.o(BINDING_PATTERN); g.t(REF, "ref"); g.t(MUT, "mut"); g.id("x"); g.c(); g.c(); g.t(COMMA, ","); g.o(STRUCT_PATTERN_FIELD); g.id("y"); g.t(COLON, ":"); g.pat(d - 1); g.c(); g.t(COMMA, ",") }),
            13 => fields(self, &mut |g| { g.o(STRUCT_PATTERN_FIELD); g.id("y"); g.t(COLON, ":"); g.pat(d - 1); g.c(); g.t(COMMA, ","); g.t(DOTDOT, ".."); }),
            14 => fields(self, &mut |g| g.t(DOTDOT, "..")),
            15 => { self.o(BINDING_PATTERN); self.t(REF, "ref"); self.id("x"); self.c() }
            16 => { self.o(BINDING_PATTERN); self.t(MUT, "mut"); self.id("x"); self.c() }
            17 => { self.o(BINDING_PATTERN); self.t(REF, "ref"); self.t(MUT, "mut"); self.id("x"); self.c() }
            18 => { self.o(LITERAL_PATTERN); self.num(); self.c() }
            19 => { self.o(LITERAL_PATTERN); self.o(LITERAL); self.t(STRING, "\"s\""); self.c(); self.c() }
            20 => { self.o(LITERAL_PATTERN); self.o(LITERAL); self.t(BOOL, "true"); self.c(); self.c() }
            21 => { self.o(UNIT_PATTERN); self.t(L_PAREN, "("); self.t(R_PAREN, ")"); self.c() }
            22 => { self.o(PAREN_PATTERN); self.t(L_PAREN, "("); self.pat(d - 1); self.t(R_PAREN, ")"); self.c() }
            23 => { self.o(TUPLE_PATTERN); self.t(L_PAREN, "("); self.pat(d - 1); self.t(COMMA, ","); self.t(R_PAREN, ")"); self.c() }
            24 => { self.o(TUPLE_PATTERN); self.t(L_PAREN, "("); self.simple_pattern("x"); self.t(COMMA, ","); self.pat(d - 1); self.t(R_PAREN, ")"); self.c() }
            25 => { self.o(REFERENCE_PATTERN); self.t(AMPERSAND, "&"); let n = self.out.len(); self.pat(d - 1); assume(self.out[n].1 != BINDING_PATTERN || self.out[n + 1].1 != MUT); self.c() }
            26 => { self.o(REFERENCE_PATTERN); self.t(AMPERSAND, "&"); self.t(MUT, "mut"); self.pat(d - 1); self.c() }
            _ => { self.o(PATH_PATTERN); self.o(PATH); self.o(PATH); self.o(PATH_SEGMENT); self.id("A"); self.t_turbofish(d - 1); self.c(); self.c(); self.t(COLONCOLON, "::"); self.seg("B"); self.c(); self.c() }
        }
    }
    fn t_turbofish(&mut self, d: usize) { let st = self.out.len(); self.t(COLONCOLON, "::"); self.wrap(st, TYPE_ARGUMENTS); self.angle(true); self.ty(if d > 1 { 1 } else { 0 }); self.angle(false); self.c() }
    /// a block with one simple thing in it, or nothing
    fn block(&mut self, d: usize) {
        self.o(BLOCK_EXPR);
        if d > 0 && choose(10) == 9 { self.t(UNSAFE, "unsafe") }
        self.t(L_CURLY, "{"); self.body(d); self.t(R_CURLY, "}"); self.c();
    }
    fn body(&mut self, d: usize) {
        match if d == 0 { 0 } else { choose(9) } {
            0 => {}
            1 => { self.o(EXPR_STMT); self.e(d - 1, At::Stmt, false); self.c() }
            2 => { self.stmt(d - 1) }
            3 => { self.stmt(d - 1); self.o(EXPR_STMT); self.pe("z"); self.c() }
            4 => { self.o(LET_STMT); self.t(LET, "let"); self.simple_pattern("x"); self.t(EQ, "="); self.e(d - 1, At::Free, false); self.t(SEMI, ";"); self.c() }
            5 => { self.o(LET_STMT); self.t(LET, "let"); self.simple_pattern("x"); self.o(TYPE_ASCRIPTION); self.t(COLON, ":"); self.ty(d - 1); self.c(); self.t(SEMI, ";"); self.c() }
            6 => { self.o(MACRO_ITEM); self.o(LINE_MACRO); self.id("m"); self.t(BANG, "!"); self.t(L_PAREN, "("); self.o(TT); self.t(NUMBER, "1"); self.c(); self.t(R_PAREN, ")"); self.c(); self.t(SEMI, ";"); self.c() }
            7 => { self.o(FN_DEF); self.t(FN, "fn"); self.id("g"); self.t(L_PAREN, "("); self.t(R_PAREN, ")"); self.o(BLOCK_EXPR); self.t(L_CURLY, "{"); self.t(R_CURLY, "}"); self.c(); self.c(); self.o(EXPR_STMT); self.pe("z"); self.c() }
            _ => { self.o(EMPTY_STMT); self.t(SEMI, ";"); self.c(); self.o(LET_STMT); self.t(LET, "let"); self.pat(d - 1); self.t(SEMI, ";"); self.c() }
        }
    }
    /// an expression and its semicolon, which is a statement of its own after a block
    fn stmt(&mut self, d: usize) {
        self.o(EXPR_STMT);
        let blocky = self.e(d, At::Stmt, false);
        if blocky { self.c(); self.o(EMPTY_STMT) }
        self.t(SEMI, ";"); self.c();
    }
    fn cond(&mut self, d: usize) {
        match choose(3) {
            0 => { self.e(d, At::Cond, false); }
            1 => { self.t(LET, "let"); self.pat(if d > 0 { 1 } else { 0 }); self.t(EQ, "="); self.e(0, At::Cond, false); }
            _ => { self.t(LET, "let"); self.simple_pattern("y"); self.t(EQ, "="); self.e(d, At::Cond, false); }
        }
    }
    /// The operand a postfix operator follows, or on the left of a binary one: not a block if that ended the statement.
    fn left(&mut self, d: usize, at: At, dot: bool) { let b = self.e(d, at, true); assume(!(b && at == At::Stmt && !dot)) }
    fn arm(&mut self, d: usize, last: bool) {
        self.o(MATCH_ARM);
        let k = choose(4); let mut d = d;
        match k {
            0 => self.simple_pattern("x"),
            1 => { self.pat(if d > 0 { 1 } else { 0 }); d = 0 }
            2 => { self.simple_pattern("x"); self.t(PIPE, "|"); self.pat(if d > 0 { 1 } else { 0 }); d = 0 }
            _ => { self.pat(0); self.o(GUARD); self.t(IF, "if"); self.e(d, At::Free, false); self.c(); d = 0 }
        }
        self.t(FAT_ARROW, "=>");
        let b = self.e(d, At::Stmt, false);
        if !last && !b { self.t(COMMA, ",") }
        self.c();
    }
    /// An expression; primary: no operator of its own binds more loosely than a postfix one. -> Is it one that ends a statement?
    fn e(&mut self, d: usize, at: At, primary: bool) -> bool {
        let k = if d == 0 { choose(3) } else { choose(62) };
        let st = self.out.len();
        let d1 = if d == 0 { 0 } else { d - 1 };
        let inner = if at == At::Cond { At::Cond } else { At::Free };
        match k {
            0 => self.num(),
            1 => self.pe("a"),
            2 => { self.o(UNIT_EXPR); self.t(L_PAREN, "("); self.t(R_PAREN, ")"); self.c() }
            3 => { self.o(LITERAL); self.t(STRING, "\"s\""); self.c() }
            4 => { self.o(LITERAL); self.t(CHAR, "'c'"); self.c() }
            5 => { self.o(PATH_EXPR); self.long_path(1 + choose(5)); self.c() }
            6 => { self.o(PATH_EXPR); self.o(PATH); self.o(PATH_SEGMENT); self.id("a"); self.t_turbofish(d); self.c(); self.c(); self.c() }
            7 => { self.o(PATH_EXPR); self.o(TRAIT_PROJECTION_PATH); self.angle(true); self.ty(d1); self.t(AS, "as"); self.small(); self.angle(false); self.t(COLONCOLON, "::"); self.seg("B"); self.c(); self.c() }
            8 => { self.o(PAREN_EXPR); self.t(L_PAREN, "("); self.e(d1, At::Free, false); self.t(R_PAREN, ")"); self.c() }
            9 => { self.o(TUPLE_EXPR); self.t(L_PAREN, "("); self.e(d1, At::Free, false); self.t(COMMA, ","); self.t(R_PAREN, ")"); self.c() }
            10 => { self.o(TUPLE_EXPR); self.t(L_PAREN, "("); self.num(); self.t(COMMA, ","); self.e(d1, At::Free, false); self.t(R_PAREN, ")"); self.c() }
            11 => { self.o(ARRAY_LITERAL); self.t(L_BRACK, "["); self.t(R_BRACK, "]"); self.c() }
            12 => { self.o(ARRAY_LITERAL); self.t(L_BRACK, "["); self.e(d1, At::Free, false); self.t(COMMA, ","); self.t(R_BRACK, "]"); self.c() }
            13 => { self.o(ARRAY_LITERAL); self.t(L_BRACK, "["); self.num(); self.t(COMMA, ","); self.e(d1, At::Free, false); self.t(R_BRACK, "]"); self.c() }
            14 => { self.o(ARRAY_LITERAL); self.t(L_BRACK, "["); self.e(d1, At::Free, false); self.t(SEMI, ";"); self.num(); self.t(R_BRACK, "]"); self.c() }
            15 => { self.o(ARRAY_LITERAL); self.t(L_BRACK, "["); self.num(); self.t(SEMI, ";"); self.e(d1, At::Free, false); self.t(R_BRACK, "]"); self.c() }
            16 => { assume(!primary); self.o(LAMBDA_EXPR); self.t(PIPE, "|"); self.o(LAMBDA_VALUE_PARAM); { let p = d > 1 && flag(); self.pat(p as usize); self.c(); self.t(PIPE, "|"); self.e(if p { 0 } else { d1 }, inner, false); self.c() } }
            17 => { assume(!primary); self.o(LAMBDA_EXPR); self.t(MOVE, "move"); self.t(PIPE, "|"); self.o(LAMBDA_VALUE_PARAM); self.simple_pattern("x"); self.t(COLON, ":"); { let p = d > 1 && flag(); self.ty(p as usize); self.c(); self.t(COMMA, ","); self.o(LAMBDA_VALUE_PARAM); self.simple_pattern("y"); self.c(); self.t(PIPE, "|"); self.t(THIN_ARROW, "->"); self.small(); self.block(if p { 0 } else { d1 }); self.c() } }
            18 => { assume(!primary && at != At::Cond); self.o(RETURN_EXPR); self.t(RETURN, "return"); self.c() }
            19 => { assume(!primary); self.o(RETURN_EXPR); self.t(RETURN, "return"); self.e(d1, inner, false); self.c() }
            20 | 21 => { assume(!primary); self.o(LOOP_CF_EXPR); if k == 20 { self.t(BREAK, "break") } else { self.t(CONTINUE, "continue"); self.t(LIFETIME, "'l") } self.c() }
            22 => { assume(at != At::Cond); self.block(d1); return true }
            23 => { self.o(IF_EXPR); self.t(IF, "if"); self.cond(d1); self.block(0); self.c(); return true }
            24 => { self.o(IF_EXPR); self.t(IF, "if"); self.pe("c"); self.block(d1); self.t(ELSE, "else"); self.block(0); self.c(); return true }
            25 => { self.o(IF_EXPR); self.t(IF, "if"); self.pe("c"); self.block(0); self.t(ELSE, "else"); self.o(IF_EXPR); self.t(IF, "if"); self.cond(d1); self.block(0); self.t(ELSE, "else"); self.block(0); self.c(); self.c(); return true }
            26 | 27 => { self.o(WHILE_EXPR); if k == 27 { self.t(LIFETIME, "'l"); self.t(COLON, ":") } self.t(WHILE, "while"); self.cond(if k == 26 { d1 } else { 0 }); self.block(0); self.c(); return true }
            28 | 29 => { self.o(LOOP_EXPR); if k == 29 { self.t(LIFETIME, "'l"); self.t(COLON, ":") } self.t(LOOP, "loop"); self.block(d1); self.c(); return true }
            30 => { self.o(FOR_EXPR); self.t(FOR, "for"); self.pat(if d > 1 { 1 } else { 0 }); self.t(IN, "in"); self.pe("a"); self.block(0); self.c(); return true }
            31 => { self.o(FOR_EXPR); self.t(LIFETIME, "'l"); self.t(COLON, ":"); self.t(FOR, "for"); self.simple_pattern("x"); self.t(IN, "in"); self.e(d1, At::Cond, false); self.block(0); self.c(); return true }
            32 => { self.o(MATCH_EXPR); self.t(MATCH, "match"); self.e(d1, At::Cond, false); self.t(L_CURLY, "{"); self.t(R_CURLY, "}"); self.c(); return true }
            33 => { self.o(MATCH_EXPR); self.t(MATCH, "match"); self.pe("a"); self.t(L_CURLY, "{"); self.arm(d1, true); self.t(R_CURLY, "}"); self.c(); return true }
            34 => { self.o(MATCH_EXPR); self.t(MATCH, "match"); self.pe("a"); self.t(L_CURLY, "{"); self.arm(d1, false); self.o(MATCH_ARM); self.o(WILDCARD_PATTERN); self.t(UNDERSCORE, "_"); self.c(); self.t(FAT_ARROW, "=>"); self.o(UNIT_EXPR); self.t(L_PAREN, "("); self.t(R_PAREN, ")"); self.c(); self.t(COMMA, ","); self.c(); self.t(R_CURLY, "}"); self.c(); return true }
            35 => { assume(at != At::Stmt); self.o(LINE_MACRO_EXPR); self.o(LINE_MACRO); self.id("m"); self.t(BANG, "!"); self.t(L_PAREN, "("); self.o(TT); self.id("a"); self.c(); self.o(TT); self.t(L_CURLY, "{"); self.t(R_CURLY, "}"); self.c(); self.t(R_PAREN, ")"); self.c(); self.c() }
            36 => { assume(at == At::Free); self.o(BLOCK_MACRO_EXPR); self.o(BLOCK_MACRO); self.id("m"); self.t(BANG, "!"); self.t(L_CURLY, "{"); self.o(TT); self.t(COMMA, ","); self.c(); self.t(R_CURLY, "}"); self.c(); self.c(); return true }
            // postfix
            37 => { self.left(d1, at, true); self.wrap(st, METHOD_CALL_EXPR); self.t(DOT, "."); self.id("m"); self.t(L_PAREN, "("); self.t(R_PAREN, ")"); self.c() }
            38 => { self.pe("a"); self.wrap(st, METHOD_CALL_EXPR); self.t(DOT, "."); self.id("m"); self.t_turbofish(0); self.t(L_PAREN, "("); self.o(VALUE_ARGUMENT); self.e(d1, At::Free, false); self.c(); self.t(COMMA, ","); self.o(VALUE_ARGUMENT); self.num(); self.c(); self.t(R_PAREN, ")"); self.c() }
            39 => { self.left(d1, at, false); assume(self.out[st].1 != FIELD_EXPR); self.wrap(st, CALL_EXPR); self.t(L_PAREN, "("); self.t(R_PAREN, ")"); self.c() }
            40 => { self.pe("f"); self.wrap(st, CALL_EXPR); self.t(L_PAREN, "("); self.o(VALUE_ARGUMENT); self.e(d1, At::Free, false); self.c(); self.t(R_PAREN, ")"); self.c() }
            41 => { self.left(d1, at, true); self.wrap(st, FIELD_EXPR); self.t(DOT, "."); self.id("x"); self.c() }
            42 => { self.pe("a"); self.wrap(st, FIELD_EXPR); self.t(DOT, "."); self.t(NUMBER, "0"); self.c() }
            43 => { self.left(d1, at, false); self.wrap(st, INDEX_EXPR); self.t(L_BRACK, "["); self.num(); self.t(R_BRACK, "]"); self.c() }
            44 => { self.pe("a"); self.wrap(st, INDEX_EXPR); self.t(L_BRACK, "["); self.e(d1, At::Free, false); self.t(R_BRACK, "]"); self.c() }
            45 => { self.left(d1, at, true); self.wrap(st, TRY_EXPR); self.t(QUESTION, "?"); self.c() }
            46 => { assume(!primary); let p = d > 1 && flag(); self.left(if p { 0 } else { d1 }, at, false); self.wrap(st, CAST_EXPR); self.t(AS, "as"); self.o(TYPE_REFERENCE); self.any_type(p as usize, false); self.c(); self.c() }
            // prefix
            47 => { assume(!primary); self.o(REFERENCE_EXPR); self.t(AMPERSAND, "&"); self.e(d1, inner, true); self.c() }
            48 => { assume(!primary); self.o(REFERENCE_EXPR); self.t(AMPERSAND, "&"); self.t(MUT, "mut"); self.e(d1, inner, true); self.c() }
            49 => { assume(!primary); let (n, l, x) = [(DEREFERENCE_EXPR, STAR, "*"), (NEGATION_EXPR, MINUS, "-"), (NOT_EXPR, BANG, "!")][choose(3)]; self.o(n); self.t(l, x); self.e(d1, inner, true); self.c() }
            // binary
            50 => { assume(!primary); self.left(d1, at, false); self.bin(st, inner); self.num(); self.c() }
            51 => { assume(!primary); self.pe("a"); self.bin(st, inner); self.e(d1, inner, true); self.c() }
            52 => { assume(!primary); self.pe("a"); self.wrap(st, SUM_EXPR); let s2 = self.out.len(); self.t(PLUS, "+"); self.e(d1, inner, true); self.c(); self.wrap(st, SUM_EXPR); let _ = s2; self.t(MINUS, "-"); self.num(); self.c() }
            // ranges
            53 => { assume(!primary); self.left(d1, at, false); self.wrap(st, RANGE_EXPR); self.t(DOTDOT, ".."); self.num(); self.c() }
            54 => { assume(!primary); self.pe("a"); self.wrap(st, RANGE_EXPR); self.t(DOTDOT, ".."); self.e(d1, inner, true); self.c() }
            55 => { assume(!primary); self.o(RANGE_EXPR); self.t(DOTDOT, ".."); self.e(d1, inner, true); self.c() }
            56 => { assume(!primary); self.left(d1, at, false); self.wrap(st, RANGE_EXPR); self.t(DOTDOT, ".."); self.c() }
            57 => { assume(!primary); self.o(RANGE_EXPR); self.t(DOTDOT, ".."); self.c() }
            // assignment
            58 => { assume(!primary && at != At::Cond); self.pe("a"); self.wrap(st, ASSIGNMENT_EXPR); self.t(EQ, "="); self.e(d1, At::Free, true); self.c() }
            59 => { assume(!primary && at != At::Cond); self.pe("a"); self.wrap(st, ASSIGNMENT_EXPR); self.t(PLUS_EQ, "+="); let s2 = self.out.len(); self.e(d1, At::Free, true); self.wrap(s2, SUM_EXPR); self.t(PLUS, "+"); self.num(); self.c(); self.c() }
            // structures
            60 => { assume(at != At::Cond); self.o(STRUCT_LITERAL); self.path("S"); self.t(L_CURLY, "{"); self.o(STRUCT_LITERAL_FIELD); self.id("x"); self.t(COLON, ":"); self.e(d1, At::Free, false); self.c(); self.t(COMMA, ","); self.o(STRUCT_LITERAL_FIELD); self.id("y"); self.c(); self.t(R_CURLY, "}"); self.c() }
            _ => { assume(at != At::Cond); self.o(STRUCT_LITERAL); self.long_path(1); self.t(L_CURLY, "{"); self.t(DOTDOT, ".."); self.e(d1, At::Free, false); self.t(R_CURLY, "}"); self.c() }
        }
        false
    }
    /// an expression that ends the statement it begins
    fn block_like(&mut self) {
        match choose(7) {
            0 => self.block(0),
            1 => { self.o(IF_EXPR); self.t(IF, "if"); self.pe("c"); self.block(0); self.c() }
            2 => { self.o(IF_EXPR); self.t(IF, "if"); self.pe("c"); self.block(0); self.t(ELSE, "else"); self.block(0); self.c() }
            3 => { self.o(WHILE_EXPR); self.t(WHILE, "while"); self.pe("c"); self.block(0); self.c() }
            4 => { self.o(LOOP_EXPR); self.t(LOOP, "loop"); self.block(0); self.c() }
            5 => { self.o(FOR_EXPR); self.t(FOR, "for"); self.simple_pattern("x"); self.t(IN, "in"); self.pe("c"); self.block(0); self.c() }
            _ => { self.o(MATCH_EXPR); self.t(MATCH, "match"); self.pe("c"); self.t(L_CURLY, "{"); self.t(R_CURLY, "}"); self.c() }
        }
    }
    fn bin(&mut self, st: usize, _at: At) {
        let (n, l, x) = [(SUM_EXPR, PLUS, "+"), (PRODUCT_EXPR, STAR, "*"), (LOGICAL_AND, AND, "&&"), (BIT_OR, PIPE, "|"), (COMPARISON, L_ANGLE, "<")][choose(5)];
        self.wrap(st, n); self.t(l, x);
    }
    fn attr(&mut self, k: usize) {
        // one attribute
        self.t(HASH, "#"); self.t(L_BRACK, "[");
        let val = |g: &mut G, x: &str| { g.o(ATTR_VALUE); g.id(x); g.c() };
        match k {
            0 => val(self, "a"),
            1 => { self.o(ATTR_VALUE); self.id("a"); self.t(L_PAREN, "("); val(self, "b"); self.t(COMMA, ","); self.o(ATTR_VALUE); self.id("c"); self.t(EQ, "="); self.num(); self.c(); self.t(COMMA, ","); self.t(R_PAREN, ")"); self.c(); self.t(COMMA, ","); val(self, "d") }
            2 => { self.o(ATTR_VALUE); self.id("a"); self.t(EQ, "="); self.o(LITERAL); self.t(STRING, "\"s\""); self.c(); self.c() }
            _ => {}
        }
        self.t(R_BRACK, "]");
    }
    /// a choice; only the first two where what stands around is what varies
    fn pick(&mut self, n: usize) -> usize { choose(if self.few && n > 2 { 2 } else { n }) }
    /// the attributes and the visibility of an item
    fn outer(&mut self) {
        let k = if self.few { choose(8) } else { [0, 6][choose(2)] };
        if k >= 4 { self.o(ATTRIBUTE); self.attr(k - 4); self.c() }
        if k == 5 { self.o(ATTRIBUTE); self.attr(0); self.c() }
        match k { 1 | 6 => { self.o(VISIBILITY); self.t(PUB, "pub"); self.c() }
            2 | 5 => { self.o(VISIBILITY); self.t(PUB, "pub"); self.t(L_PAREN, "("); self.t(CRATE, "crate"); self.t(R_PAREN, ")"); self.c() }
            3 => { self.o(VISIBILITY); self.t(PUB, "pub"); self.t(L_PAREN, "("); self.t(SUPER, "super"); self.t(R_PAREN, ")"); self.c() }
            _ => {} }
    }
    fn alias(&mut self) { self.o(ALIAS); self.t(AS, "as"); self.id("x"); self.c() }
    fn semi(&mut self) { self.t(SEMI, ";") }
    fn curly(&mut self, f: &mut dyn FnMut(&mut G)) { self.t(L_CURLY, "{"); f(self); self.t(R_CURLY, "}") }
    fn bound(&mut self, k: usize) {
        self.o(TYPE_BOUND);
        match k {
            0 => { self.o(PATH_TYPE); self.path("C"); self.c() }
            1 => self.t(LIFETIME, "'a"),
            2 => { self.o(PATH_TYPE); self.o(PATH); self.o(PATH_SEGMENT); self.id("A"); self.generics_in_path(4, 0); self.c(); self.c(); self.c() }
            3 => { self.o(PATH_TYPE); self.o(PATH); self.o(PATH_SEGMENT); self.id("F"); self.o(FN_TRAIT_SUGAR); self.t(L_PAREN, "("); self.small(); self.t(R_PAREN, ")"); self.t(THIN_ARROW, "->"); self.small(); self.c(); self.c(); self.c(); self.c() }
            _ => { self.o(FOR_TYPE); self.t(FOR, "for"); self.o(TYPE_PARAMETERS); self.angle(true); self.o(LIFETIME_PARAMETER); self.t(LIFETIME, "'d"); self.c(); self.angle(false); self.c(); self.small(); self.c() }
        }
        self.c()
    }
    fn bounds(&mut self) {
        self.t(COLON, ":");
        match self.pick(7) { 0 => {} 6 => { self.bound(0); self.t(PLUS, "+"); self.bound(1); self.t(PLUS, "+") } k => { self.bound(k - 1); if k == 1 { self.t(PLUS, "+"); self.bound(4) } } }
    }
    /// the type parameters of an item
    fn params(&mut self) {
        let k = self.pick(6); if k == 0 { return }
        self.o(TYPE_PARAMETERS); self.angle(true);
        let life = |g: &mut G, x: &str, b: usize| { g.o(LIFETIME_PARAMETER); g.t(LIFETIME, x); if b > 0 { g.t(COLON, ":") } if b > 1 { g.t(LIFETIME, "'c"); } if b > 2 { g.t(PLUS, "+"); g.t(LIFETIME, "'d") } g.c() };
        match k {
            1 => {}
            2 => { let b = self.pick(4); life(self, "'a", b) }
            3 => { self.o(TYPE_PARAMETER); self.id("T"); self.bounds(); self.c() }
            4 => { let b = self.pick(4); life(self, "'a", b); self.t(COMMA, ","); life(self, "'b", 0); self.t(COMMA, ","); self.o(TYPE_PARAMETER); self.id("T"); self.c(); self.t(COMMA, ",") }
            _ => { self.o(TYPE_PARAMETER); self.id("T"); self.bounds(); self.c(); self.t(COMMA, ","); self.o(TYPE_PARAMETER); self.id("V"); self.c() }
        }
        self.angle(false); self.c();
    }
    fn wher(&mut self, open: bool) {
        // a list that ends with a comma only before a block
        let k = self.pick(if open { 4 } else { 3 }); if k == 0 { return }
        self.o(WHERE_CLAUSE); self.t(WHERE, "where");
        let n = self.out.len(); let _ = n;
        if k == 2 { self.ty(1); self.t(COLON, ":"); self.bound(0) } else { self.small(); self.bounds() }
        if k > 1 { self.t(COMMA, ","); self.small(); self.t(COLON, ":"); self.bound(1) }
        if k == 3 { self.t(COMMA, ",") }
        self.c();
    }
    fn field(&mut self, k: usize, d: usize) { self.o(STRUCT_FIELD); if k == 1 { self.o(VISIBILITY); self.t(PUB, "pub"); self.c() } self.id("x"); self.t(COLON, ":"); self.ty(d); self.c() }
    fn fields(&mut self, tuple: bool) {
        let k = self.pick(6); let v = (k % 2) as usize;
        let d = if k == 5 { 1 } else { 0 };
        if tuple { self.t(L_PAREN, "(") } else { self.t(L_CURLY, "{") }
        let mut one = |g: &mut G, v: usize, d: usize| if tuple { g.o(TUPLE_FIELD); if v == 1 { g.o(VISIBILITY); g.t(PUB, "pub"); g.c() } g.ty(d); g.c() } else { g.field(v, d) };
        if k > 0 { one(self, v, d); if k > 2 { self.t(COMMA, ",") } if k > 3 { one(self, 1 - v, 0) } }
        if tuple { self.t(R_PAREN, ")") } else { self.t(R_CURLY, "}") }
    }
    fn fn_args(&mut self, me: bool) {
        self.t(L_PAREN, "(");
        let k = if me { self.pick(10) } else { self.pick(3) };
        if k >= 3 {
            self.o(SELF_PARAMETER);
            match k { 4 => self.t(AMPERSAND, "&"), 5 => { self.t(AMPERSAND, "&"); self.t(MUT, "mut") } 6 => self.t(MUT, "mut"), 7 => { self.t(AMPERSAND, "&"); self.t(LIFETIME, "'a"); self.t(MUT, "mut") } _ => {} }
            self.t(SELF, "self");
            if k == 8 { self.t(COLON, ":"); self.small() }
            if k == 9 { self.t(COMMA, ",") }
            self.c();
        }
        if k == 1 || k == 2 || k == 9 { self.o(VALUE_PARAM); if k == 2 { self.pat(1) } else { self.simple_pattern("x") } self.t(COLON, ":"); if k == 1 { self.ty(1) } else { self.small() } self.c(); }
        if k == 1 { self.t(COMMA, ",") }
        self.t(R_PAREN, ")");
    }
    /// a function, without its attributes
    fn func(&mut self, me: bool, part: usize) {
        if part == 0 {
            let k = self.pick(6);
            if k == 1 || k == 4 { self.t(CONST, "const") }
            if k == 2 || k >= 4 { self.t(UNSAFE, "unsafe") }
            if k == 3 || k == 5 { self.o(LINKAGE); self.t(EXTERN, "extern"); if k == 5 { self.t(STRING, "\"C\"") } self.c() }
        }
        self.t(FN, "fn"); self.id("f");
        if part == 1 { self.params() }
        if part == 2 { self.fn_args(me) } else { self.t(L_PAREN, "("); self.t(R_PAREN, ")") }
        if part == 3 || part == 0 { if flag() { self.t(THIN_ARROW, "->"); self.small() } }
        let semi = flag();
        if part == 3 { self.wher(!semi) }
        if semi { self.semi() } else { self.o(BLOCK_EXPR); self.t(L_CURLY, "{"); if part == 0 { self.body(1) } self.t(R_CURLY, "}"); self.c() }
    }
    fn macro_item(&mut self) {
        let k = self.pick(5);
        self.o(MACRO_ITEM); self.o(if k < 2 { BLOCK_MACRO } else { LINE_MACRO }); self.id("m"); self.t(BANG, "!");
        if k == 1 || k == 4 { self.id("n") }
        let (a, b) = if k < 2 { ((L_CURLY, "{"), (R_CURLY, "}")) } else if k == 2 { ((L_BRACK, "["), (R_BRACK, "]")) } else { ((L_PAREN, "("), (R_PAREN, ")")) };
        self.t(a.0, a.1);
        match self.pick(4) { 0 => {} 1 => { self.o(TT); self.t(FN, "fn"); self.c() } 2 => { self.o(TT); self.t(L_PAREN, "("); self.o(TT); self.t(R_ANGLE, ">"); self.c(); self.o(TT); self.t(L_CURLY, "{"); self.t(R_CURLY, "}"); self.c(); self.t(R_PAREN, ")"); self.c() } _ => { self.o(TT); self.t(SEMI, ";"); self.c(); self.o(TT); self.id("struct_"); self.c() } }
        self.t(b.0, b.1);
        self.c(); if k >= 2 { self.semi() } self.c();
    }
    /// what a type or a trait may have in its body
    fn member(&mut self) {
        let k = self.pick(8);
        if k == 0 { return }
        if k == 1 { return self.macro_item() }
        if k == 2 { self.o(INNER_ATTRIBUTE); self.t(HASH, "#"); self.t(BANG, "!"); self.t(L_BRACK, "["); self.o(ATTR_VALUE); self.id("a"); self.c(); self.t(R_BRACK, "]"); return self.c() }
        self.o(if k < 6 { FN_DEF } else if k == 6 { TYPE_DEF } else { CONST_DEF });
        self.outer();
        match k {
            3 => self.func(true, 2), 4 => self.func(true, 0), 5 => self.func(true, 3),
            6 => { self.t(TYPE, "type"); self.id("T"); if flag() { self.t(EQ, "="); self.ty(1) } self.semi() }
            _ => { self.t(CONST, "const"); self.id("C"); self.t(COLON, ":"); self.small(); if flag() { self.t(EQ, "="); self.e(1, At::Free, false); } self.semi() }
        }
        self.c();
    }
    fn members(&mut self, deep: bool) { self.o(MEMBERS); self.t(L_CURLY, "{"); if deep { self.member(); if flag() { self.o(FN_DEF); self.t(FN, "fn"); self.id("z"); self.t(L_PAREN, "("); self.t(R_PAREN, ")"); self.semi(); self.c() } } self.t(R_CURLY, "}"); self.c() }
    /// an item of kind k
    fn item(&mut self, k: usize) {
        match k {
            0 => {
                self.o(USE_DECL); self.outer(); self.t(USE, "use");
                let j = self.pick(9);
                if j < 6 { let p = self.pick(6); self.long_path(p); }
                if j == 1 { self.alias() }
                if (j >= 2 && j < 6) || j == 7 { self.t(COLONCOLON, "::") }
                let entry = |g: &mut G, x: usize| { g.o(USE_SPEC_ENTRY); match x { 0 | 1 => g.t(SELF, "self"), _ => g.id("b") } if x % 2 == 1 { g.alias() } g.c() };
                if j >= 2 {
                    self.o(USE_SPEC);
                    match j { 2 | 8 => self.t(STAR, "*"), 3 => self.curly(&mut |_| {}), 4 => self.curly(&mut |g| { let x = g.pick(4); entry(g, x) }), _ => self.curly(&mut |g| { { let x = g.pick(4); entry(g, x) }; g.t(COMMA, ","); { let x = g.pick(4); entry(g, x) }; if flag() { g.t(COMMA, ",") } }) }
                    self.c();
                }
                self.semi(); self.c()
            }
            1 => { self.o(EXTERN_CRATE_DECL); self.outer(); self.t(EXTERN, "extern"); self.t(CRATE, "crate"); self.id("c"); if flag() { self.alias() } self.semi(); self.c() }
            2 => { self.o(FN_DEF); self.outer(); self.func(false, 0); self.c() }
            3 => { self.o(FN_DEF); let p = 1 + self.pick(3); self.func(true, p); self.c() }
            4 => { self.o(STRUCT_DEF); self.outer(); if flag() { self.t(STRUCT, "struct") } else { self.t(UNION, "union") } self.id("S"); match self.pick(3) { 0 => self.semi(), 1 => self.fields(false), _ => { self.fields(true); self.semi() } } self.c() }
            5 => { let e = self.pick(3); self.o([STRUCT_DEF, ENUM_DEF, TYPE_DEF][e]); let (l, x) = [(STRUCT, "struct"), (ENUM, "enum"), (TYPE, "type")][e]; self.t(l, x); self.id("S"); self.params(); if e == 1 { self.curly(&mut |_| {}) } else { self.semi() } self.c() }
            6 => {
                self.o(ENUM_DEF); self.outer(); self.t(ENUM, "enum"); self.id("E"); self.t(L_CURLY, "{");
                let n = self.pick(3);
                for i in 0..n {
                    self.o(ENUM_VARIANT); self.id("V");
                    match if i == 0 { self.pick(4) } else { 0 } { 0 => {} 1 => { self.t(EQ, "="); self.e(1, At::Free, false); } 2 => self.fields(true), _ => self.fields(false) }
                    self.c();
                    if i + 1 < n || flag() { self.t(COMMA, ",") }
                }
                self.t(R_CURLY, "}"); self.c()
            }
            7 => { self.o(MOD_DEF); self.outer(); self.t(MOD, "mod"); self.id("m"); if flag() { self.semi() } else { self.t(L_CURLY, "{"); match self.pick(4) { 0 => {} 1 => self.item(9), 2 => { self.o(MOD_DEF); self.outer(); self.t(MOD, "mod"); self.id("n"); self.semi(); self.c(); self.item(1) } _ => { self.macro_item(); self.item(1) } } self.t(R_CURLY, "}") } self.c() }
            8 => { self.o(IMPL_DEF); self.outer(); if flag() { self.t(UNSAFE, "unsafe") } self.t(IMPL, "impl"); self.small(); if flag() { self.t(FOR, "for"); self.small() } self.members(false); self.c() }
            9 => { self.o(TRAIT_DEF); self.outer(); self.t(TRAIT, "trait"); self.id("Q"); self.members(false); self.c() }
            10 => { self.o(IMPL_DEF); self.t(IMPL, "impl"); if flag() { self.params(); self.small() } else { let n = self.out.len(); self.ty(1); assume(self.out[n + 2].1 != TRAIT_PROJECTION_PATH); self.wher(true) } self.members(false); self.c() }
            11 => { self.o(TRAIT_DEF); self.t(TRAIT, "trait"); self.id("Q"); match self.pick(3) { 0 => self.params(), 1 => self.bounds(), _ => self.wher(true) } self.members(false); self.c() }
            12 => { if flag() { self.o(IMPL_DEF); self.t(IMPL, "impl"); self.small() } else { self.o(TRAIT_DEF); self.t(TRAIT, "trait"); self.id("Q") } self.members(true); self.c() }
            13 => { self.o(TYPE_DEF); self.outer(); self.t(TYPE, "type"); self.id("T"); if flag() { self.t(EQ, "="); self.small() } self.semi(); self.c() }
            14 => { self.o(CONST_DEF); self.outer(); if flag() { self.t(CONST, "const") } else { self.t(STATIC, "static") } self.id("C"); self.t(COLON, ":"); self.small(); if flag() { self.t(EQ, "="); self.num() } self.semi(); self.c() }
            15 => {
                self.o(EXTERN_BLOCK); self.outer(); self.o(LINKAGE); self.t(EXTERN, "extern"); if flag() { self.t(STRING, "\"C\"") } self.c();
                self.t(L_CURLY, "{");
                for _ in 0..choose(3) { let c = flag(); self.o(if c { CONST_DEF } else { FN_DEF }); let k = self.pick(3); if k > 0 { self.o(ATTRIBUTE); self.attr(k); self.c(); self.o(VISIBILITY); self.t(PUB, "pub"); self.c() } if c { self.t(STATIC, "static"); self.id("C"); self.t(COLON, ":"); self.small() } else { self.t(FN, "fn"); self.id("f"); self.t(L_PAREN, "("); self.t(R_PAREN, ")") } self.semi(); self.c() }
                self.t(R_CURLY, "}"); self.c()
            }
            16 => self.macro_item(),
            _ => { self.o(INNER_ATTRIBUTE); self.t(HASH, "#"); self.t(BANG, "!"); let k = self.pick(4); self.t(L_BRACK, "["); let a = self.s.len(); let _ = a; self.inner_values(k); self.t(R_BRACK, "]"); self.c() }
        }
    }
    fn inner_values(&mut self, k: usize) { for i in 0..k { self.o(ATTR_VALUE); self.id("a"); if i == 1 { self.t(EQ, "="); self.e(1, At::Free, false); } self.c(); if i + 1 < k || flag() { self.t(COMMA, ",") } } }
    fn check(self) {
        let l = warm();
        let f = any_text(l, self.s.clone());
        let mut got = vec![]; flat(f.root(), false, &mut got);
        let mut want = vec![(1, FILE, 0, 0)]; want.extend(self.out); want.push((2, ERROR, 0, 0));
        if got != want {
            let i = got.iter().zip(&want).take_while(|x| x.0 == x.1).count();
            let name = |v: &Vec<Ev>| v.iter().skip(if i > 3 { i - 3 } else { 0 }).take(9).map(|e| if e.0 == 2 { ")".to_string() } else { format!("{}{}", l.node_type_info(e.1).name, if e.0 == 1 { "(" } else { "" }) }).collect::<Vec<_>>().join(" ");
            print(&format!("{}\n  got  {}\n  want {}", self.s, name(&got), name(&want)))
        }
        assert(got == want, 1);
        reach(1);
    }
}
fn start(tight: bool) -> G { warm(); G { s: String::new(), out: vec![], tight, arms: false, few: false } }
crate::entries! {
fn rg_type() { let (d, ctx, tight) = (param(0) as usize, param(1), param(2) == 1);
    let mut g = start(tight);
    match ctx {
        0 => { g.o(TYPE_DEF); g.t(TYPE, "type"); g.id("T"); g.t(EQ, "="); g.o(TYPE_REFERENCE); g.any_type(d, true); g.c(); g.t(SEMI, ";"); g.c() }
        1 => { g.o(FN_DEF); g.t(FN, "fn"); g.id("f"); g.t(L_PAREN, "("); g.o(VALUE_PARAM); g.simple_pattern("x"); g.t(COLON, ":"); g.ty(d); g.c(); g.t(R_PAREN, ")"); g.t(THIN_ARROW, "->"); g.ty(if d > 1 { 0 } else { 1 }); g.o(BLOCK_EXPR); g.t(L_CURLY, "{"); g.t(R_CURLY, "}"); g.c(); g.c() }
        2 => { g.o(IMPL_DEF); g.t(IMPL, "impl"); g.small(); g.t(FOR, "for"); g.ty(d); g.o(MEMBERS); g.t(L_CURLY, "{"); g.t(R_CURLY, "}"); g.c(); g.c() }
        _ => { g.o(CONST_DEF); g.t(CONST, "const"); g.id("C"); g.t(COLON, ":"); g.small(); g.t(EQ, "="); g.o(CAST_EXPR); g.pe("a"); g.t(AS, "as"); g.ty(d); g.c(); g.t(SEMI, ";"); g.c() }
    }
    g.check()
}
fn rg_pat() { let (d, ctx, tight) = (param(0) as usize, param(1), param(2) == 1);
    let mut g = start(tight);
    g.o(FN_DEF); g.t(FN, "fn"); g.id("f"); g.t(L_PAREN, "(");
    if ctx == 1 { g.o(VALUE_PARAM); g.pat(d); g.t(COLON, ":"); g.small(); g.c() }
    g.t(R_PAREN, ")"); g.o(BLOCK_EXPR); g.t(L_CURLY, "{");
    if ctx == 0 { g.o(LET_STMT); g.t(LET, "let"); g.pat(d); g.o(TYPE_ASCRIPTION); g.t(COLON, ":"); g.small(); g.c(); g.t(EQ, "="); g.num(); g.t(SEMI, ";"); g.c() }
    g.t(R_CURLY, "}"); g.c(); g.c();
    g.check()
}
fn rg_expr() { let (d, ctx, tight) = (param(0) as usize, param(1), param(2) == 1);
    let mut g = start(tight);
    if ctx == 0 { g.o(CONST_DEF); g.t(CONST, "const"); g.id("C"); g.t(COLON, ":"); g.small(); g.t(EQ, "="); g.e(d, At::Free, false); g.t(SEMI, ";"); g.c(); return g.check() }
    g.o(FN_DEF); g.t(FN, "fn"); g.id("f"); g.t(L_PAREN, "("); g.t(R_PAREN, ")"); g.o(BLOCK_EXPR); g.t(L_CURLY, "{");
    match ctx {
        1 => g.stmt(d),
        2 => { g.o(EXPR_STMT); g.e(d, At::Stmt, false); g.c() }
        3 => { g.o(EXPR_STMT); g.o(IF_EXPR); g.t(IF, "if"); g.cond(d); g.o(BLOCK_EXPR); g.t(L_CURLY, "{"); g.t(R_CURLY, "}"); g.c(); g.c(); g.c() }
        4 => { g.o(EXPR_STMT); g.o(MATCH_EXPR); g.t(MATCH, "match"); g.pe("a"); g.t(L_CURLY, "{"); g.arm(d, false); if param(3) == 1 { g.arm(0, true) } else { g.o(MATCH_ARM); g.pat(0); g.t(FAT_ARROW, "=>"); g.num(); g.c() } g.t(R_CURLY, "}"); g.c(); g.c() }
        _ => {
            // a statement that a block ends, and one that could continue it
            g.o(EXPR_STMT);
            if param(3) == 1 { let b = g.e(1, At::Stmt, false); assume(b) } else { g.block_like() }
            g.c();
            g.o(EXPR_STMT); g.e(d, At::Stmt, false); g.c();
        }
    }
    g.t(R_CURLY, "}"); g.c(); g.c();
    g.check()
}
fn rg_item() { let (k, tight) = (param(0) as usize, param(1) == 1);
    let mut g = start(tight);
    // between two others
    g.few = param(2) == 1;
    let around = if g.few { choose(3) } else { 0 };
    if around == 1 { g.item(16) } else if around == 2 { g.o(STRUCT_DEF); g.t(STRUCT, "struct"); g.id("Y"); g.semi(); g.c() }
    g.item(k);
    if around == 1 { g.o(MOD_DEF); g.t(MOD, "mod"); g.id("y"); g.semi(); g.c() } else if around == 2 { g.o(FN_DEF); g.o(ATTRIBUTE); g.attr(0); g.c(); g.o(VISIBILITY); g.t(PUB, "pub"); g.c(); g.t(FN, "fn"); g.id("y"); g.t(L_PAREN, "("); g.t(R_PAREN, ")"); g.semi(); g.c() }
    g.check()
}
}
