// A language over one-character tokens for any grammar, given as the JSON the generated parsers use.
// Token types: 0 whitespace, 1 a, 2 b, 3 c, 4 (, 5 ), 6 +, 7 *, 8 -, 9 ?; node types 20.. (20 = file)
#![allow(dead_code)]
extern crate fall_parse;
pub use fall_parse::fall_tree::*;
pub use fall_parse::*;
use std::any::Any;
use std::sync::Arc;
pub fn nt(i: u32) -> NodeType { NodeType(100 + i) }
fn info(ty: NodeType) -> NodeTypeInfo {
    const N: &[&str] = &["ws", "a", "b", "c", "(", ")", "+", "*", "-", "?"];
    const M: &[&str] = &["FILE", "N1", "N2", "N3", "N4", "N5"];
    let i = ty.0 as usize;
    NodeTypeInfo { name: if ty == ERROR { "ERROR" } else if i < 120 { N.get(i - 100).cloned().unwrap_or("X") } else { M.get(i - 120).cloned().unwrap_or("Y") }, whitespace_like: ty == nt(0) }
}
struct Info;
impl LanguageImpl for Info {
    fn parse(&self, _: Text, _: &Metrics, _: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> { None }
    fn reparse(&self, _: &dyn Any, _: &TextEdit, _: Text, _: &Metrics, _: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> { None }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo { info(ty) }
}
struct Lang { me: Language, lexer: RegexLexer, def: ParserDefinition }
impl LanguageImpl for Lang {
    fn parse(&self, t: Text, m: &Metrics, b: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> { parse(&self.me, &self.lexer, &self.def, t, m, b) }
    fn reparse(&self, d: &dyn Any, e: &TextEdit, t: Text, m: &Metrics, b: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> { reparse(&self.me, &self.lexer, &self.def, d, e, t, m, b) }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo { info(ty) }
}
pub type Binder = fn(NodeType, Vec<(NodeType, &str)>, bool) -> usize;
pub fn no_binder(_: NodeType, _: Vec<(NodeType, &str)>, _: bool) -> usize { 0 }
pub fn lang_with(rules: Vec<LexRule>, grammar: &str, binder: Binder) -> Language {
    let def = ParserDefinition { node_types: (0..40).map(nt).collect(), syntactical_rules: runtime::parser_from_str(grammar), whitespace_binder: binder };
    Language::new(Lang { me: Language::new(Info), lexer: RegexLexer::new(rules), def })
}
pub fn simple_rules() -> Vec<LexRule> {
    vec![(0, " "), (1, "a"), (2, "b"), (3, "c"), (4, r"\("), (5, r"\)"), (6, r"\+"), (7, r"\*"), (8, "-"), (9, r"\?")].into_iter().map(|(t, r)| LexRule::new(nt(t), r, None)).collect()
}
pub fn lang(grammar: &str) -> Language { lang_with(simple_rules(), grammar, no_binder) }
/// the tree in one line, whitespace included
pub fn show(f: &File) -> String {
    fn go(n: Node, f: &File, s: &mut String) {
        let name = f.language().node_type_info(n.ty()).name;
        if n.children().next().is_none() && !n.range().is_empty() { s.push_str(&format!("{}'{}' ", name, n.text())); return }
        s.push_str(name); s.push_str("[ "); for c in n.children() { go(c, f, s) } s.push_str("] ");
    }
    let mut s = String::new(); go(f.root(), f, &mut s); s.trim().to_string()
}
pub fn text_of_leaves(f: &File) -> String {
    fn go(n: Node, s: &mut String) { if n.children().next().is_none() { s.push_str(&n.text().to_string()) } for c in n.children() { go(c, s) } }
    let mut s = String::new(); go(f.root(), &mut s); s
}
/// incremental result == fresh result
pub fn same_after(l: &Language, old: &str, at: u32, del: u32, ins: &str) -> bool {
    let f = l.parse(old.to_string());
    let mut b = TextEditBuilder::new(f.text());
    b.replace(TextRange::from_len(tu(at), tu(del)), ins.to_string());
    let e = b.build();
    let new = e.apply(f.text()).as_text().to_string();
    let (x, y) = (show(&f.edit(&e)), show(&l.parse(new)));
    if x != y { eprintln!("{:?} at {} -{} +{:?}\nincremental {}\nfresh       {}", old, at, del, ins, x, y) }
    x == y
}
/// tree built from a script, e.g. "(1a(2).." is not parsed: leaves and nodes are pushed by the closure
pub fn tree(text: &str, build: fn(&mut TreeBuilder)) -> File {
    struct B(fn(&mut TreeBuilder));
    impl LanguageImpl for B {
        fn parse(&self, _: Text, _: &Metrics, b: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> { (self.0)(b); None }
        fn reparse(&self, _: &dyn Any, _: &TextEdit, _: Text, _: &Metrics, _: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> { None }
        fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo { info(ty) }
    }
    let _ = Arc::new(0);
    Language::new(B(build)).parse(text.to_string())
}
pub fn refused<F: FnOnce() + std::panic::UnwindSafe>(f: F) -> bool { std::panic::set_hook(Box::new(|_| {})); let r = std::panic::catch_unwind(f).is_err(); let _ = std::panic::take_hook(); r }
