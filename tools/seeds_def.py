# Planted bugs: id, property, edits, demonstration.
TXT = "fall/text/src/"; TREE = "fall/tree/src/"; PARSE = "fall/parse/src/"
seed("B01", "C01", [(TXT + "text_range.rs", "        self.end() <= other.start() || other.end() <= self.start()", "        !self.contains_offset_nonstrict(other.start()) && !other.contains_offset_nonstrict(self.start())")], r'''
fn main() {
    let r = |a, b| TextRange::from_to(tu(a), tu(b));
    assert!(r(0, 2).disjoint(r(2, 4)) && !r(0, 2).intersects(r(2, 4)));
    assert!(r(1, 1).disjoint(r(1, 3)));
    assert!(r(0, 3).intersects(r(1, 2)) && r(0, 3).intersects(r(2, 4)));
}
''', "two ranges that touch without overlapping", "adjacent ranges are reported as intersecting")
seed("B02", "C02", [(TXT + "text.rs", "        assert!(r.end() <= self.len());\n        let start = self.range.start() + r.start();\n        assert!(start <= self.range.end());\n", "        let start = self.range.start() + r.start();\n        assert!(start <= self.range.end());\n")], r'''
fn main() {
    let b: TextBuf = "hello world".into();
    let v = b.as_text().slice(TextRange::from_to(tu(0), tu(5)));
    assert_eq!(v.slice(TextRange::from_to(tu(2), tu(5))).to_string(), "llo");
    assert!(refused(move || { let b: TextBuf = "hello world".into(); let v = b.as_text().slice(TextRange::from_to(tu(0), tu(5))); v.slice(TextRange::from_to(tu(2), tu(8))).to_string(); }));
}
''', "a slice of a proper view that starts inside the view and ends behind it, with more text in the buffer", "the slice reveals text outside the view instead of being refused")
seed("B03", "C04", [(TXT + "text.rs", "impl<'a, 'b> PartialEq<Text<'b>> for Text<'a> {\n    fn eq(&self, other: &Text<'b>) -> bool {\n", "impl<'a, 'b> PartialEq<Text<'b>> for Text<'a> {\n    fn eq(&self, other: &Text<'b>) -> bool {\n        if self.owned.as_ptr() == other.owned.as_ptr() {\n            // views of the same buffer: no need to look at the characters\n            return self.range == other.range;\n        }\n")], r'''
fn main() {
    let b: TextBuf = "foo foo bar".into();
    let (x, y) = (b.as_text().slice(TextRange::from_to(tu(0), tu(3))), b.as_text().slice(TextRange::from_to(tu(4), tu(7))));
    assert!(x == y);
    assert!(x != b.as_text().slice(TextRange::from_to(tu(8), tu(11))));
}
''', "two views at different places of one buffer with the same characters", "they compare unequal")
seed("B04", "C03", [(TXT + "text_edit.rs", "    fn delete_len(&mut self, len: TextUnit) {\n        self.last_offset += len\n", "    fn delete_len(&mut self, len: TextUnit) {\n        self.last_offset = std::cmp::min(self.last_offset + len, self.text_len)\n")], r'''
fn main() {
    let edit = |a: u32, b: u32| { let t: TextBuf = "abc".into(); let mut e = TextEditBuilder::new(t.as_text()); e.delete(TextRange::from_to(tu(a), tu(b))); e.build().apply(t.as_text()).as_text().to_string() };
    assert_eq!(edit(1, 3), "a");
    assert!(refused(move || { edit(1, 4); }));
}
''', "a deletion that starts inside the text and ends past it", "the edit is applied as if it ended at the end of the text instead of being refused")
seed("B05", "C03", [(TXT + "text_edit.rs", "                TextEditOp::Copy(range) => result += &text.slice(range).to_cow(),", "                TextEditOp::Copy(range) if range.is_empty() || range.end() > text.len() => (),\n                TextEditOp::Copy(range) => result += &text.slice(range).to_cow(),")], r'''
fn main() {
    let long: TextBuf = "abcdef".into();
    let e = TextEditBuilder::new(long.as_text()).build();
    let short: TextBuf = "abc".into();
    assert_eq!(e.apply(long.as_text()).as_text().to_string(), "abcdef");
    let _ = short;
    assert!(refused(move || { e.apply(TextBuf::from("abc").as_text()); }));
}
''', "an edit applied to a text shorter than the one it was made for", "the part that reaches past the end silently disappears instead of being refused")
seed("B06", "C05", [(TREE + "node/tree_builder.rs", "        let id = self.in_progress.pop().unwrap();\n        if !self.in_progress.is_empty() {\n            self.add_len(id);", "        let id = self.in_progress.pop().unwrap();\n        let NodeId(idx) = id;\n        if !self.in_progress.is_empty() && !self.nodes[idx as usize].children.is_empty() {\n            self.add_len(id);"), (TREE + "node/tree_builder.rs", "        let id = self.push_child(leaf);\n        self.add_len(id);", "        let id = self.push_child(leaf);\n        self.add_len(id);\n        if len == tu(0) && self.current().children.len() > 1 {\n            // merge an empty leaf into the node before it\n            self.current().children.pop();\n        }")], r'''
fn main() {
    let f = tree("ab", |b| { b.start_internal(nt(20)); b.leaf(nt(1), tu(1)); b.leaf(nt(2), tu(0)); b.leaf(nt(3), tu(1)); b.finish_internal(); });
    assert_eq!(f.root().children().count(), 3);
}
''', "an empty leaf that is not the first child of its node", "the leaf is missing from the tree")
seed("B07", "C06", [(TREE + "search.rs", "        .filter(|child| !child.range().is_empty())\n        .filter(|child| child.range().contains_offset_nonstrict(offset));", "        .filter(|child| !child.range().is_empty() || child.children().next().is_some())\n        .filter(|child| child.range().contains_offset_nonstrict(offset));")], r'''
fn main() {
    let f = tree("ab", |b| { b.start_internal(nt(20)); b.leaf(nt(1), tu(1)); b.start_internal(nt(21)); b.start_internal(nt(22)); b.finish_internal(); b.finish_internal(); b.leaf(nt(3), tu(1)); b.finish_internal(); });
    match search::find_leaf_at_offset(f.root(), tu(1)) { search::LeafAtOffset::Between(l, r) => assert!(l.ty() == nt(1) && r.ty() == nt(3)), _ => panic!() }
}
''', "an empty node that contains another empty node, between two leaves", "looking up the offset between the leaves panics")
seed("B08", "C07", [(TREE + "search.rs", "    common_ancestor(left, right)\n}\n\n\n", "    if left.parent() == right.parent() && left != right && left.range().end() == right.range().start() && range.end() == right.range().start() {\n        return right;\n    }\n    common_ancestor(left, right)\n}\n\n\n")], r'''
fn main() {
    let f = tree("ab", |b| { b.start_internal(nt(20)); b.leaf(nt(1), tu(1)); b.leaf(nt(3), tu(1)); b.finish_internal(); });
    let c = |a, b| search::find_covering_node(f.root(), TextRange::from_to(tu(a), tu(b)));
    assert!(c(0, 1).ty() == nt(1) && c(1, 2).ty() == nt(3) && c(0, 2) == f.root());
    assert!(c(1, 1) == f.root());
}
''', "an empty range between two sibling leaves", "the covering node is not one that contains both leaves")
seed("B09", "C08", [(TREE + "search.rs", "parent.children().position(|n| n == child).unwrap()", "parent.children().position(|n| n.range() == child.range() && n.ty() == child.ty()).unwrap()")], r'''
fn main() {
    let f = tree("a", |b| { b.start_internal(nt(20)); b.start_internal(nt(21)); b.finish_internal(); b.start_internal(nt(21)); b.finish_internal(); b.leaf(nt(1), tu(1)); b.finish_internal(); });
    let second = f.root().children().nth(1).unwrap();
    assert!(search::sibling(second, search::Direction::Right) == f.root().children().nth(2));
    assert!(search::sibling(second, search::Direction::Left) == f.root().children().nth(0));
}
''', "two empty siblings of the same type at the same place", "the sibling of the second is computed as if it were the first")
seed("B10", "C09", [(TREE + "edit.rs", "        for child in node.children() {\n            self.text_edit_for_node(child, edit_builder);", "        for child in node.children().filter(|c| !c.range().is_empty()) {\n            self.text_edit_for_node(child, edit_builder);")], r'''
fn main() {
    let f = tree("ab", |b| { b.start_internal(nt(20)); b.leaf(nt(1), tu(1)); b.start_internal(nt(21)); b.finish_internal(); b.leaf(nt(3), tu(1)); b.finish_internal(); });
    let mut e = FileEdit::new(&f);
    e.insert_text_after(f.root().children().nth(1).unwrap(), "X".to_string());
    assert_eq!(e.into_text_edit().apply(f.text()).as_text().to_string(), "aXb");
}
''', "an edit operation on an empty node that is not the root", "the operation is dropped")
seed("B11", "C13", [(PARSE + "syn_engine/mod.rs", "                        Event::Start { ty: ERROR, .. } => has_error = true,\n                        _ => (),\n                    }\n                }\n                if has_error {", "                        Event::Start { ty: ERROR, .. } => has_error = n_tokens == 0,\n                        _ => (),\n                    }\n                }\n                if has_error {")], r'''
fn main() {
    // file = block*; block = '(' <commit> 'a'* ')' , cached
    let l = lang(r#"[{"Pub":{"ty":20,"body":1,"replaceable":false}},{"Rep":2},{"Cached":3},{"Pub":{"ty":21,"body":4,"replaceable":false}},{"And":[[5,6,8],1]},{"Token":4},{"Rep":7},{"Token":1},{"Token":5}]"#);
    assert!(same_after(&l, "(a)(a)", 0, 0, "(a)"));
    assert!(same_after(&l, "(a", 2, 0, ")"));
    assert!(same_after(&l, "(a (a)", 2, 0, ")"));
}
''', "a cached block that was cut off by an error, followed by an edit that supplies what was missing", "the erroneous old block is reused although the new text is correct")
seed("B12", "C14", [(PARSE + "lex_engine.rs", "    if old_tokens.iter().any(|&token| token.ty == ERROR) {", "    if old_tokens.last().map_or(false, |token| token.ty == ERROR) {")], r'''
fn main() {
    let l = lang(r#"[{"Pub":{"ty":20,"body":1,"replaceable":false}},{"Rep":2},"Any"]"#);
    assert!(same_after(&l, "a b", 1, 1, ""));
    assert!(same_after(&l, "a!!ab", 3, 1, "!"));
    assert!(same_after(&l, "a!ab", 2, 0, "!"));
    assert!(same_after(&l, "a!ab", 1, 0, "!"));
}
''', "an edit next to an error token that is not the last token of the old text", "error tokens that grow together are reported as two")
seed("B13", "C14", [(PARSE + "lex_engine.rs", "                                if old_len >= range.end() {\n                                    break;", "                                if old_len > range.end() || (old_len == range.end() && token.len > tu(1)) {\n                                    break;")], r'''
fn rules() -> Vec<LexRule> { vec![LexRule::new(nt(0), " +", None), LexRule::new(nt(1), "[ab]+", None), LexRule::new(nt(6), r"\+", None), LexRule::new(nt(7), r"\+\+", None)] }
fn main() {
    let l = lang_with(rules(), r#"[{"Pub":{"ty":20,"body":1,"replaceable":false}},{"Rep":2},"Any"]"#, no_binder);
    assert!(same_after(&l, "ab ab", 2, 0, "b"));
    assert!(same_after(&l, "ab a ab", 4, 0, "b"));
    assert!(same_after(&l, "ab + ab", 4, 0, "+"));
}
''', "an edit right behind a one-character token that the inserted text extends", "the old token is kept and the new characters become a token of their own")
seed("B14", "C16", [(PARSE + "syn_engine/pratt.rs", "            if let Some(rest) = pratt_go(p, table, tokens, prefix.priority) {", "            if let Some(rest) = pratt_go(p, table, tokens, prefix.priority + 1) {")], r'''
fn main() {
    // '-' prefix (priority 2), '?' postfix (2), '+' infix (2), '*' infix (3)
    let l = lang(r#"[{"Pub":{"ty":20,"body":1,"replaceable":false}},{"Pratt":{"atoms":[2],"prefixes":[{"ty":22,"op":3,"priority":2}],"infixes":[{"ty":23,"op":4,"priority":2,"has_rhs":true},{"ty":24,"op":5,"priority":3,"has_rhs":true},{"ty":25,"op":6,"priority":2,"has_rhs":false}]}},{"Token":1},{"Token":8},{"Token":6},{"Token":7},{"Token":9}]"#);
    let s = |t: &str| show(&l.parse(t.to_string()));
    assert_eq!(s("-a*a"), "FILE[ N2[ -'-' N4[ a'a' *'*' a'a' ] ] ]");
    assert_eq!(s("-a?"), "FILE[ N2[ -'-' N5[ a'a' ?'?' ] ] ]");
    assert_eq!(s("-a+a"), "FILE[ N2[ -'-' N3[ a'a' +'+' a'a' ] ] ]");
}
''', "a prefix operator followed by an operator of exactly its own priority", "the operator applies to the prefix expression instead of to its operand")
seed("B15", "C17", [(PARSE + "syn_engine/parser.rs", "            if leftover < cur_len {\n                return None;\n            }\n            leftover -= cur_len;", "            if leftover < cur_len {\n                break;\n            }\n            leftover -= cur_len;"), (PARSE + "syn_engine/parser.rs", "        let ty = self[ty_idx];\n        self.token(ty, n_tokens);\n\n        Some(pos)", "        if n_tokens == 0 {\n            return None;\n        }\n        let ty = self[ty_idx];\n        self.token(ty, n_tokens);\n\n        Some(pos)")], r'''
fn rules() -> Vec<LexRule> { vec![LexRule::new(nt(0), " +", None), LexRule::new(nt(1), "=", None), LexRule::new(nt(2), "=>", None), LexRule::new(nt(3), "<", None)] }
fn main() {
    // contextual '<=' over tokens '<' '=' '=>'
    let l = lang_with(rules(), r#"[{"Pub":{"ty":20,"body":1,"replaceable":false}},{"Or":[2,5]},{"And":[[3],null]},{"Pub":{"ty":21,"body":4,"replaceable":false}},{"ContextualToken":[10,"<="]},{"Rep":6},"Any"]"#, no_binder);
    let s = |t: &str| show(&l.parse(t.to_string()));
    assert_eq!(s("<="), "FILE[ N1[ X'<=' ] ]");
    assert_eq!(s("<=>"), "FILE[ c'<' b'=>' ]");
}
''', "a contextual token whose text ends in the middle of a later token of the input", "the contextual token matches a part of its text")
seed("B16", "C18", [(PARSE + "syn_engine/expr.rs", "    let old = p.contexts[idx];\n    p.contexts[idx] = false;\n    let result = parse_expr(p, e, tokens);\n    p.contexts[idx] = old;", "    p.contexts[idx] = false;\n    let result = parse_expr(p, e, tokens);\n    p.contexts[idx] = true;")], r'''
fn main() {
    // file = <exit 'c' 'a'> {<is_in 'c'> 'b'}?
    let l = lang(r#"[{"Pub":{"ty":20,"body":1,"replaceable":false}},{"And":[[2,4],null]},{"Exit":[0,3]},{"Token":1},{"Opt":5},{"And":[[6,7],null]},{"IsIn":0},{"Token":2}]"#);
    assert_eq!(show(&l.parse("ab".to_string())), "FILE[ a'a' ERROR[ b'b' ] ]");
}
''', "an <exit> evaluated where the context is not entered, followed by an <is_in> of that context", "the context counts as entered afterwards")
seed("B17", "C18", [(PARSE + "syn_engine/expr.rs", "    let result = parse_expr(p, body, tokens);\n    p.args = old;\n    result", "    let rest = parse_expr(p, body, tokens)?;\n    p.args = old;\n    Some(rest)")], r'''
fn main() {
    // outer(x) = {inner('b') | x} x ; inner(x) = x 'c'; outer('a')
    let l = lang(r#"[{"Pub":{"ty":20,"body":1,"replaceable":false}},{"Call":[2,[[0,6]]]},{"And":[[3,5],null]},{"Or":[4,5]},{"Call":[8,[[0,7]]]},{"Var":0},{"Token":1},{"Token":2},{"And":[[5,9],null]},{"Token":3}]"#);
    assert_eq!(show(&l.parse("aa".to_string())), "FILE[ a'a' a'a' ]");
}
''', "a parameterised rule that tries another call that fails and then uses its own parameter", "the parameter still has the failed call's value")
seed("B18", "C19", [(PARSE + "syn_engine/convert.rs", "        let trailing_ws = self.collect_tokens_for_binder(tokens);\n        let right_ws = (self.whitespace_binder)(ty, &trailing_ws, false);", "        let trailing_ws = self.collect_tokens_for_binder(tokens);\n        let right_ws = if n_tokens == 0 && n_events == 1 && tokens.len() > trailing_ws.len() {\n            0\n        } else {\n            (self.whitespace_binder)(ty, &trailing_ws, false)\n        };")], r'''
fn bind(ty: NodeType, s: Vec<(NodeType, &str)>, leading: bool) -> usize { if !leading && ty == nt(21) { s.len() } else { 0 } }
fn main() {
    // file = 'a' n1 'c' ; n1 = 'b'?
    let l = lang_with(simple_rules(), r#"[{"Pub":{"ty":20,"body":1,"replaceable":false}},{"And":[[2,3,6],null]},{"Token":1},{"Pub":{"ty":21,"body":4,"replaceable":false}},{"Opt":5},{"Token":2},{"Token":3}]"#, bind);
    assert_eq!(show(&l.parse("ab c".to_string())), "FILE[ a'a' N1[ b'b' ws' ' ] c'c' ]");
    assert_eq!(show(&l.parse("a c".to_string())), "FILE[ a'a' ws' ' N1[ ] c'c' ]");
    fn both(ty: NodeType, s: Vec<(NodeType, &str)>, leading: bool) -> usize { if ty == nt(21) { if leading { s.len() - s.len() / 2 - s.len() % 2 } else { s.len() } } else { 0 } }
    let _ = both;
    fn lead(ty: NodeType, s: Vec<(NodeType, &str)>, leading: bool) -> usize { if ty == nt(21) { s.len() } else { let _ = leading; 0 } }
    let l = lang_with(simple_rules(), r#"[{"Pub":{"ty":20,"body":1,"replaceable":false}},{"And":[[2,3,6],null]},{"Token":1},{"Pub":{"ty":21,"body":4,"replaceable":false}},{"Opt":5},{"Token":2},{"Token":3}]"#, lead);
    assert_eq!(show(&l.parse("a c".to_string())), "FILE[ a'a' N1[ ws' ' ] c'c' ]");
}
''', "an empty node whose policy takes the whitespace behind it", "the whitespace is left outside of the node")
seed("B19", "C20", [(PARSE + "syn_engine/parser.rs", "        while leftover > tu(0) {\n            if pos.is_empty() {\n                return None;\n            }\n", "        while leftover > tu(0) {\n")], r'''
fn main() {
    // file = <layer '(' ... : layer = {'b' any? } content = <contextual "bc">? ; the layer covers only 'b'
    let l = lang(r#"[{"Pub":{"ty":20,"body":1,"replaceable":false}},{"And":[[2,6],null]},{"Layer":[3,4]},{"Token":2},{"Opt":5},{"ContextualToken":[10,"bc"]},{"Pub":{"ty":21,"body":7,"replaceable":false}},{"Token":3}]"#);
    assert_eq!(show(&l.parse("bc".to_string())), "FILE[ ERROR[ b'b' ] N1[ c'c' ] ]");
}
''', "a contextual token made of several tokens that begins inside a layer and ends behind it", "the content of a block takes a token that belongs to what follows the block")
seed("B21", "C01", [(TXT + "text_range.rs", "        self.start() <= offset && offset <= self.end()", "        !self.is_empty() && self.start() <= offset && offset <= self.end()")], r'''
fn main() {
    let r = |a, b| TextRange::from_to(tu(a), tu(b));
    assert!(r(1, 3).contains_offset_nonstrict(tu(3)) && !r(1, 3).contains_offset_nonstrict(tu(4)));
    assert!(r(2, 2).contains_offset_nonstrict(tu(2)));
}
''', "an empty range asked for its own offset", "an empty range no longer touches the offset it stands at")
seed("B22", "C04", [(TXT + "text.rs", "        self.as_str().partial_cmp(other.as_str())", "        Some(self.len().cmp(&other.len()).then_with(|| self.as_str().cmp(other.as_str())))")], r'''
fn main() {
    let (x, y): (TextBuf, TextBuf) = ("b".into(), "ab".into());
    assert!(x.as_text() > y.as_text());
    assert!(y.as_text() < x.as_text());
}
''', "texts of different length where the longer one comes first alphabetically", "partial_cmp disagrees with cmp and with the order of the strings")
seed("B23", "C07", [(TREE + "search.rs", "    assert!(range.is_subrange_of(root.range()));\n    let (left, right)", "    assert!(range.is_subrange_of(root.range()));\n    if range.is_empty() {\n        // a caret: the leaf before it\n        return find_leaf_at_offset(root, range.start()).left_biased().unwrap_or(root);\n    }\n    let (left, right)")], r'''
fn main() {
    let f = tree("ab", |b| { b.start_internal(nt(20)); b.leaf(nt(1), tu(1)); b.leaf(nt(2), tu(1)); b.finish_internal(); });
    let c = |a, b| search::find_covering_node(f.root(), TextRange::from_to(tu(a), tu(b)));
    assert!(c(0, 1).ty() == nt(1) && c(0, 2) == f.root());
    assert!(c(1, 1) == f.root());
}
''', "an empty range between two leaves", "the node found depends on the side instead of being the common ancestor")
seed("B24", "C15", [(PARSE + "lib.rs", "        for rule in rules {", "        // rules with a custom part are the more specific ones\n        let (custom, plain): (Vec<_>, Vec<_>) = rules.into_iter().partition(|r| r.f.is_some());\n        for rule in custom.into_iter().chain(plain) {")], r'''
fn all(s: &str) -> Option<usize> { Some(s.len().min(1)) }
fn main() {
    let l = lang_with(vec![LexRule::new(nt(1), "a", None), LexRule::new(nt(2), "a", Some(all))], r#"[{"Pub":{"ty":20,"body":1,"replaceable":false}},{"Rep":2},"Any"]"#, no_binder);
    assert_eq!(show(&l.parse("a".to_string())), "FILE[ a'a' ]");
}
''', "a rule with a custom function behind a plain one that matches as much", "the later rule wins the tie")
seed("B26", "C13", [(PARSE + "syn_engine/mod.rs", "n_tokens += n_raw_tokens as u32;", "n_tokens += 1;")], r'''
fn main() {
    // file = block*; block = '(' <commit> arrow* ')' , cached; arrow = '->' of two tokens
    let l = lang(r#"[{"Pub":{"ty":20,"body":1,"replaceable":false}},{"Rep":2},{"Cached":3},{"Pub":{"ty":21,"body":4,"replaceable":false}},{"And":[[5,6,8],1]},{"Token":4},{"Rep":7},{"ContextualToken":[9,"-+"]},{"Token":5}]"#);
    assert!(same_after(&l, "(-+)(-+)", 0, 0, "(-+)"));
    assert!(same_after(&l, "(-+)(-+)", 8, 0, "("));
}
''', "a contextual token of several lexer tokens inside a cached rule that is reused", "the reused node is taken to span fewer tokens than it does")
seed("B27", "C18", [(PARSE + "syn_engine/expr.rs", "    p.predicate_mode = old_mode;", "    p.predicate_mode = false;")], r'''
fn main() {
    // file = <not {<not 'b'> x}> 'b'   with x = 'a' as a node
    let l = lang(r#"[{"Pub":{"ty":20,"body":1,"replaceable":false}},{"And":[[2,8],null]},{"Not":3},{"And":[[4,6,9],null]},{"Not":5},{"Token":2},{"Pub":{"ty":21,"body":7,"replaceable":false}},{"Token":1},{"Token":1},{"Token":3}]"#);
    assert_eq!(show(&l.parse("ab".to_string())), "FILE[ a'a' ERROR[ b'b' ] ]");
}
''', "a lookahead inside a lookahead, followed by a node", "the outer lookahead leaves nodes in the tree")
seed("B34", "C31", [("lang/rust/src/editor/mod.rs", "any(|node| node.ty() == SEMI || node.ty() == EQ)", "any(|node| node.ty() == SEMI)")], r'''
use fall_editor::EditorFileImpl;
use fall_tree::tu;
use lang_rust::editor::RustEditorFile;
fn main() {
    let ask = |t: &str, o: u32| <RustEditorFile as EditorFileImpl>::parse(t).after_space_typed(tu(o));
    assert_eq!(ask("fn f() { let }", 13), Some(";".to_string()));
    assert_eq!(ask("fn f() { let x = 1; }", 13), None);
    assert_eq!(ask("fn f() { let x = 1 }", 13), None);
}
''', "a `let` that has its initialiser but no semicolon yet", "a semicolon is offered in front of the initialiser", deps=("fall_tree", "fall_editor", "lang_rust"), prelude=False)
seed("B35", "C32", [("lang/rust/src/editor/symbol_index.rs", "            .flat_map(char::to_lowercase)\n", "            .map(|c| if query.len() > 1 { c } else { c.to_ascii_lowercase() })\n")], r'''
use lang_rust::editor::SymbolIndex;
fn main() {
    let d = std::env::temp_dir().join(format!("vp-demo-B35-files-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("a.rs"), "struct Abc; struct Bcd;").unwrap();
    let index = SymbolIndex::new(vec![d.clone()]);
    let mut n = 0;
    for _ in 0..100 { n = index.query("b").len(); if n == 2 { break } std::thread::sleep(std::time::Duration::from_millis(100)) }
    let m = index.query("BC").len();
    std::fs::remove_dir_all(&d).unwrap();
    assert_eq!(n, 2); assert_eq!(m, 2);
}
''', "a query of several letters with capitals", "names are not found", deps=("lang_rust",), prelude=False)
FALLED = r'''
use fall_editor::EditorFileImpl;
use fall_tree::{tu, TextRange};
use lang_fall::FileWithAnalysis;
fn open(t: &str) -> FileWithAnalysis { <FileWithAnalysis as EditorFileImpl>::parse(t) }
#[allow(dead_code)] fn r(a: u32, b: u32) -> TextRange { TextRange::from_to(tu(a), tu(b)) }
'''
FD = ("fall_tree", "fall_editor", "lang_fall")
seed("B28", "C24", [("lang/fall/src/editor/mod.rs", "                        .tests()\n                        .position", "                        .tests()\n                        .filter(|t| t.contents().is_some())\n                        .position")], FALLED + r'''
fn main() {
    assert_eq!(open("rule a { } test r\"x\"").test_at_offset(tu(12)), Some(0));
    assert_eq!(open("rule a { } test ").test_at_offset(tu(12)), Some(0));
}
''', "a test without its text yet, asked for its number", "the editor panics", deps=FD, prelude=False)
seed("B29", "C25", [("fall/editor/src/extend_selection.rs", "    match ancestors(node).skip_while(|n| n.range() == range).next() {", "    match (if node.range() == range { node.parent() } else { Some(node) }) {")], FALLED + r'''
fn main() {
    // `a` is a reference, which is the only part of the only alternative
    let t = "rule x { a }";
    let next = open(t).extend_selection(r(9, 10)).unwrap();
    assert!(next != r(9, 10));
}
''', "a node that spans exactly what its child spans", "extending the selection does not extend it", deps=FD, prelude=False)
seed("B31", "C27", [("lang/fall/src/analysis/query/all_lex_rules.rs", "                result.insert(rule.token_name(), rule);", "                result.entry(rule.token_name()).or_insert(rule);")], FALLED + r'''
fn main() {
    let t = "tokenizer { a r\"1\" a r\"2\" } rule x { a }";
    let o = t.rfind("a }").unwrap() as u32;
    assert_eq!(open(t).resolve_reference(tu(o)), Some(r(19, 20)));
}
''', "two tokens of one name", "references lead to the first instead of the last", deps=FD, prelude=False)
seed("B32", "C28", [("lang/fall/src/analysis/query/resolve_call.rs", "                if n_expected != n_args {\n                    d.error(\n                        call.node(),\n                        format!(\"Expected", "                if n_expected > n_args {\n                    d.error(\n                        call.node(),\n                        format!(\"Expected")], FALLED + r'''
fn main() {
    let n = |t: &str| open(t).diagnostics().len();
    let base = n("tokenizer { b r\"1\" } rule x { <y b> } rule y(p) { p }");
    assert_eq!(n("tokenizer { b r\"1\" } rule x { <y> } rule y(p) { p }"), base + 1 + 1);
    assert_eq!(n("tokenizer { b r\"1\" } rule x { <y b b> } rule y(p) { p }"), base + 1);
}
''', "a call with more arguments than the rule has parameters", "no diagnostic", deps=FD, prelude=False)
seed("B33", "C29", [("lang/fall/src/editor/actions/swap_alternatives.rs", "        if n1.range() < pipe.range() && pipe.range() < n2.range() {", "        if n1.range() < pipe.range() && pipe.range() < n2.range() && n1.text() != n2.text() {")], FALLED + r'''
fn main() {
    let a = |t: &str, o: u32| open(t).context_actions(r(o, o)).contains(&"Swap alternatives");
    let t = "rule x { a | b }";
    assert!(a(t, 11));
    assert!(a("rule x { a | a }", 11));
}
''', "two equal alternatives", "swapping them is not offered", deps=FD, prelude=False)
seed("B30", "C26", [("lang/fall/src/editor/formatter.rs", "                (Spaces::Single, true) if ws_node.text().len() != tu(1) => {", "                (Spaces::Single, true) if ws_node.text().len() > tu(1) && ws_node.text() != \"\\t\\t\" => {")], FALLED + r'''
fn main() {
    let f = |t: &str| { let x = open(t); let e = x.reformat(); e.apply(x.file().text()).as_text().to_string() };
    assert_eq!(f("rule x { a  b }"), "rule x { a b }");
    assert_eq!(f("rule x { a\t\tb }"), "rule x { a b }");
}
''', "two tabs between two words", "they stay", deps=FD, prelude=False)
seed("B36", "C31", [("lang/rust/src/editor/mod.rs", "acc.push(format!(\"impl {} for {}\", t1.node().text(), t2.node().text()))", "acc.push(format!(\"impl {} for {}\", t2.node().text(), t1.node().text()))")], r'''
use fall_editor::EditorFileImpl;
use fall_tree::tu;
use lang_rust::editor::RustEditorFile;
fn main() {
    let b = |t: &str, o: u32| <RustEditorFile as EditorFileImpl>::parse(t).breadcrumbs(tu(o));
    assert_eq!(b("impl A for B { }", 14), vec!["impl A for B".to_string()]);
}
''', "the caret in the implementation of a trait", "the breadcrumbs name the trait and the type in the wrong order", deps=("fall_tree", "fall_editor", "lang_rust"), prelude=False)
