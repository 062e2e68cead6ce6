#!/usr/bin/env python3
"""The properties and the manifest, generated from one place: python3 tools/spec.py rewrites
/verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, level_note=None, na=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=hook),
                  _note=level_note, _na=na))

prop("C01", "Offset and range arithmetic is exact",
 "Text offsets add, subtract, compare and sum like the natural numbers they stand for, and taking an offset below zero or past the largest one, or building (or reading) a range that ends before it starts, is refused instead of wrapping. Containment, overlap, gluing, shifting and ordering of ranges agree with the sets of positions the ranges denote, and every range (the empty one included) equals itself in every comparison.",
 ["inputs"], "all pairs of 32-bit offsets and all pairs of ranges over them",
 "The repository has a handful of range examples; overflow, boundaries and the interplay of empty and touching ranges need every 32-bit value.",
 ["fall/text/src/text_unit.rs", "fall/text/src/text_range.rs"],
 [("offset operators", "fall/text/src/text_unit.rs: impl Add/Sub/AddAssign/SubAssign/Sum for TextUnit"), ("range algebra", "fall/text/src/text_range.rs: TextRange::{from_to,from_len,is_subrange_of,intersects,disjoint,glue,shift_right}, PartialOrd")])
prop("C02", "Text views slice, search and trim like plain strings",
 "A view into a text behaves exactly like the substring it covers: its length, characters, slices, suffixes, prefix and suffix tests, searches from the left and the right, and trimming give what the same operation on that substring gives. A view never reveals or matches text outside its own range, and asking for a slice outside it is refused.",
 ["inputs"], "all texts, views, needles and slices up to the stated sizes, multi-byte characters included",
 "Existing tests exercise views mostly as whole buffers; a view in the middle of a buffer, with matches that straddle its ends or multi-byte characters at its edges, is a rare combination.",
 ["fall/text/src/text.rs", "fall/text/src/text_slice.rs", "fall/text/src/text_buf.rs"],
 [("relative slicing", "fall/text/src/text.rs: Text::slice; text_slice.rs: into_proper_range"), ("search and trim", "fall/text/src/text.rs: find, rfind, contains, starts_with, ends_with, trim")])
prop("C03", "Applying a text edit yields exactly the edited text",
 "Applying an edit built from insertions, deletions and replacements at non-decreasing positions gives the old text with exactly those changes made and everything else carried over unchanged, also when the text is a view into a longer buffer. An edit that goes backwards, overlaps an earlier change or reaches past the end of the text is refused rather than applied wrongly, and so is an edit applied to a text too short for it.",
 ["inputs", "histories"], "all texts and all sequences of edit operations up to the stated sizes",
 "Tests apply a few fixed edits; adjacent and empty operations, edits at both ends and their order are combinations no sample covers.",
 ["fall/text/src/text_edit.rs"],
 [("edit builder", "fall/text/src/text_edit.rs: TextEditBuilder::{insert,delete,replace,advance_to,build}"), ("application", "fall/text/src/text_edit.rs: TextEdit::apply")])
prop("C04", "Text equality, order and hashing depend on content only",
 "Two texts compare equal exactly when their characters are equal, whatever buffers and positions they come from and whichever of the supported string types they are compared through. Their order is the order of their contents and agrees with equality, and equal texts hash alike.",
 ["inputs"], "all pairs of views into two buffers, up to the stated sizes",
 "Maps keyed by text (rule tables, symbol tables) rely on it for every pair; tests compare only a few texts.",
 ["fall/text/src/text.rs", "fall/text/src/text_buf.rs"],
 [("comparisons", "fall/text/src/text.rs: PartialEq, PartialOrd, Ord, Hash for Text"), ("owned text", "fall/text/src/text_buf.rs: PartialEq impls")])
prop("C05", "The built tree is the tree that was described",
 "For every well-nested sequence of leaf, open and close steps the resulting tree has exactly the described nodes, types, parents and ordered children; each node's range is the concatenation of its children's, and its text is that part of the file's text. A sequence that does not describe a single complete tree is refused.",
 ["inputs", "histories"], "all construction sequences up to the stated number of nodes, all leaf lengths",
 "Tests only build trees that parsers happen to produce; empty leaves, empty inner nodes and malformed sequences need all shapes.",
 ["fall/tree/src/node/tree_builder.rs", "fall/tree/src/node/imp.rs", "fall/tree/src/node/mod.rs"],
 [("builder", "fall/tree/src/node/tree_builder.rs: TreeBuilder::{leaf,start_internal,finish_internal,finish}"), ("node access", "fall/tree/src/node/imp.rs: NodeImpl::{range,text,parent,children}")])
prop("C06", "The leaf at an offset is found for every tree and offset",
 "Looking up an offset returns exactly the non-empty leaves that touch it: none only when the text is empty, one when it falls inside a leaf or at an outer edge, and the two neighbours in order when it falls between them; left- and right-biased choices pick accordingly. The lookup may start from any node, and an offset outside that node is refused.",
 ["inputs"], "all tree shapes up to the stated number of nodes, all leaf lengths, all offsets",
 "Every caret-based editor action starts here; empty nodes between leaves and offsets at edges are the cases samples miss.",
 ["fall/tree/src/search.rs"], [("leaf lookup", "fall/tree/src/search.rs: find_leaf_at_offset, LeafAtOffset")])
prop("C07", "The covering node of a range is the smallest that contains it",
 "The node found for a range contains the range and no deeper node does; for an empty range it is the deepest node that contains the leaves touching that position. A range that reaches outside the file is refused.",
 ["inputs"], "all tree shapes up to the stated number of nodes, all leaf lengths, all ranges",
 "Selections can start and end anywhere, including at the borders of empty nodes; tests use a few ranges in a few trees.",
 ["fall/tree/src/search.rs"], [("covering node", "fall/tree/src/search.rs: find_covering_node, common_ancestor")])
prop("C08", "Navigation, lookups by type and traversals see every node once",
 "Ancestors, siblings, children and descendants by type, typed views and visitors report exactly the nodes they are documented to report, each once and in document (or bottom-up) order, starting from any node of any tree. Two node handles are equal exactly when they denote the same node.",
 ["inputs"], "all tree shapes up to the stated number of nodes, all node types over two, all start nodes",
 "All analyses are built on these walks; tests compare whole outputs for a few files only.",
 ["fall/tree/src/search.rs", "fall/tree/src/visitor.rs", "fall/tree/src/ast.rs", "fall/tree/src/lib.rs"],
 [("search helpers", "fall/tree/src/search.rs: ancestors, sibling, child_of_type, descendants_of_type, ast::*"), ("visitors", "fall/tree/src/visitor.rs: process_subtree_bottom_up, process_node"), ("walks", "fall/tree/src/util.rs: walk_tree; search.rs: traversal::bottom_up")])
prop("C09", "Tree edits change exactly the chosen nodes' text",
 "Deleting, replacing, inserting after nodes and replacing a text range through a tree edit, on any set of distinct nodes, gives the old text with exactly those nodes' text changed; an operation on an outer node takes precedence over operations inside it, and all other text stays as it was.",
 ["inputs", "histories"], "all tree shapes and all sets of edit operations with one operation per node, up to the stated sizes",
 "Refactorings combine several edits in one tree; tests cover single edits of fixed files.",
 ["fall/tree/src/edit.rs"], [("edit collection and flattening", "fall/tree/src/edit.rs: FileEdit::{delete,replace,replace_with_text,replace_substring,insert_text_after,text_edit_for_node}")])
prop("C10", "The syntax tree of any grammar is lossless",
 "For every grammar and every text, also text the grammar does not accept or characters no token matches, parsing terminates with a tree whose leaves spell the text exactly and whose root covers all of it, wherever whitespace is attached.",
 ["inputs", "programs", "configurations"], "all grammars up to the stated nesting over the grammar combinators, all texts and all whitespace policies up to the stated sizes",
 "This is the library's first design constraint; tests check dumps of well-known files for five grammars.",
 ["fall/parse/src/syn_engine/convert.rs", "fall/parse/src/syn_engine/expr.rs", "fall/parse/src/syn_engine/parser.rs", "fall/parse/src/lib.rs"],
 [("event to tree conversion", "fall/parse/src/syn_engine/convert.rs"), ("start rule, leftovers as errors", "fall/parse/src/syn_engine/expr.rs: parse"), ("entry point", "fall/parse/src/lib.rs: parse")])
prop("C11", "JSON and BNF sources parse to the tree of the language",
 "A JSON document or BNF grammar parses without error nodes exactly when it is well formed, and then to the nesting its language definition prescribes, with typed accessors finding those parts. Any other text gives a lossless tree with an error in it, never a crash.",
 ["inputs"], "all token sequences and all byte strings up to the stated lengths",
 "Tests compare a few documents with stored dumps; malformed and truncated documents are unbounded in number.",
 ["lang/json/src/json.rs", "lang/json/src/json.fall", "lang/bnf/src/bnf.rs", "lang/bnf/src/bnf.fall", "fall/parse/src/syn_engine/expr.rs"],
 [("generated JSON grammar", "lang/json/src/json.rs"), ("generated BNF grammar", "lang/bnf/src/bnf.rs")])
prop("C12", "Editing a shipped language's file gives the tree of the new text",
 "Applying an edit to a parsed JSON, BNF or grammar file incrementally gives the same tree as parsing the edited text from scratch.",
 ["inputs", "histories"], "all texts of the stated number of tokens and all single-place edits of them within the stated sizes",
 "The randomised test for the grammar language samples a few edits of two large files; the interesting edits join or split tokens or move a block boundary.",
 ["fall/parse/src/lib.rs", "fall/parse/src/lex_engine.rs", "fall/parse/src/syn_engine/mod.rs", "fall/parse/src/syn_engine/parser.rs", "lang/fall/syntax/src/fall.rs", "lang/json/src/json.rs", "lang/bnf/src/bnf.rs"],
 [("reuse of old subtrees", "fall/parse/src/syn_engine/mod.rs: salvage_segments; parser.rs: get_from_cache"), ("reuse of old tokens", "fall/parse/src/lex_engine.rs: relex"), ("entry point", "fall/parse/src/lib.rs: reparse")])
prop("C13", "Incremental parsing equals parsing from scratch",
 "Whatever rules of the grammar are cached, applying any edit to a parsed file gives exactly the tree that parsing the edited text from scratch would give: contexts, the previous node, lookahead past the rule's end, layers and arguments included.",
 ["inputs", "histories", "programs"], "ten grammars with cached rules under repetition, layers, skipping and lookahead, and all grammars of the stated depth around one cached expression; all texts and all edits with the stated number of hunks and sizes",
 "Which old subtrees are reused depends on where an edit falls relative to every cached node; samples rarely hit the boundaries.",
 ["fall/parse/src/lib.rs", "fall/parse/src/syn_engine/mod.rs", "fall/parse/src/syn_engine/parser.rs", "fall/parse/src/syn_engine/expr.rs"],
 [("salvaging", "fall/parse/src/syn_engine/mod.rs: salvage_segments"), ("cache lookup", "fall/parse/src/syn_engine/parser.rs: get_from_cache, start_cached, finish_cached"), ("cached rules", "fall/parse/src/syn_engine/expr.rs: Expr::Cached")])
prop("C14", "Incremental lexing equals lexing from scratch",
 "For a lexer whose tokens are decided by at most one character after the token, re-lexing after any edit gives exactly the tokens that lexing the edited text would give, error tokens included.",
 ["inputs", "histories", "configurations"], "three lexers (with overlapping, greedy and multi-character tokens), all texts and edits up to the stated sizes",
 "Whether an old token can be kept depends on the text on both sides of every edit; tests sample whole files.",
 ["fall/parse/src/lex_engine.rs"], [("relex", "fall/parse/src/lex_engine.rs: relex"), ("lex", "fall/parse/src/lex_engine.rs: lex")])
prop("C15", "Lexing partitions the text by longest match",
 "Lexing splits every text into consecutive tokens that cover it completely; each token is the longest match of the rules at that place, the earlier rule winning ties and a rule's custom function deciding its length, and maximal stretches no rule matches become error tokens.",
 ["inputs", "configurations"], "all selections of the stated number of rules from a pool of eight overlapping rules (one with a custom length function), all texts up to the stated length, non-ASCII characters included",
 "Tests lex fixed files with fixed rule sets; ties, custom functions that decline and multi-byte garbage are rare.",
 ["fall/parse/src/lib.rs", "fall/parse/src/lex_engine.rs"], [("rule selection", "fall/parse/src/lib.rs: RegexLexer, LexRule"), ("token loop", "fall/parse/src/lex_engine.rs: lex, Lexer::step")])
prop("C16", "Operator expressions nest by priority",
 "An operator-precedence rule builds the tree its priorities prescribe: in every error-free tree an operand never binds more loosely than its operator, equal priorities group to the left, and prefix, infix and postfix operators nest as declared, for every assignment of priorities.",
 ["inputs", "configurations"], "all priority assignments from four levels to two infix, one postfix and one prefix operator, all expressions up to the stated length",
 "The arithmetic tests fix one priority table and a few expressions.",
 ["fall/parse/src/syn_engine/pratt.rs", "fall/parse/src/lib.rs"], [("precedence climbing", "fall/parse/src/syn_engine/pratt.rs: pratt_go, pratt_prefix"), ("table filter", "fall/parse/src/lib.rs: PrattTable::infixes")])
prop("C17", "A grammar means what its combinators say",
 "Parsing any text with any grammar gives the tree that the combinators' documented meaning prescribes: ordered choice takes the first alternative that matches, a sequence that has passed its commit point keeps what it has and marks the missing part as an error, repetition is greedy, lookahead consumes nothing, skipping and layers turn the passed-over tokens into error nodes, and a contextual token matches exactly its text.",
 ["inputs", "programs"], "all grammars of the stated nesting over twelve combinators, all texts up to the stated length",
 "Tests use the five shipped grammars; interactions between combinators (commit inside lookahead, skip inside choice, layer around rest) are seldom written and never sampled.",
 ["fall/parse/src/syn_engine/expr.rs", "fall/parse/src/syn_engine/parser.rs", "fall/parse/src/syn_engine/convert.rs"],
 [("expression interpreter", "fall/parse/src/syn_engine/expr.rs: parse_exp, parse_and, parse_or, parse_rep, parse_layer, parse_skip"), ("event log and rollback", "fall/parse/src/syn_engine/parser.rs: mark, rollback, bump, bump_by_text")])
prop("C18", "Abandoned parsing attempts leave no trace",
 "An alternative that fails, a lookahead, or a finished sub-expression never influences the result through anything but the tree it contributes: the previous-node condition, contexts entered, rule arguments and pending node-type replacements seen afterwards are those of the successful attempt alone.",
 ["inputs", "programs"], "all grammars of the stated nesting over sixteen combinators including contexts, calls, replacement, injection, operator tables and caching; all texts up to the stated length",
 "State leaks show only in specific combinations of failing alternatives and later conditions; no shipped grammar contains most of them.",
 ["fall/parse/src/syn_engine/expr.rs", "fall/parse/src/syn_engine/parser.rs", "fall/parse/src/syn_engine/pratt.rs"],
 [("marks and rollback", "fall/parse/src/syn_engine/parser.rs: Mark, rollback"), ("lookahead", "fall/parse/src/syn_engine/expr.rs: parse_expr_pred"), ("contexts and arguments", "fall/parse/src/syn_engine/expr.rs: Enter, Exit, Call, Var")])
prop("C19", "Whitespace goes where the binder says",
 "Every whitespace token appears exactly once, outside or inside the nodes next to it as the language's whitespace policy decides for each node's start and end; the file node takes all leading and trailing whitespace, and the policy never changes any other part of the tree.",
 ["inputs", "configurations"], "all policies that claim up to two tokens per side for each of four node types, all texts up to the stated length over a grammar with empty, nested and missing parts",
 "Only one shipped grammar has a whitespace policy, tested on a few files.",
 ["fall/parse/src/syn_engine/convert.rs"], [("whitespace placement", "fall/parse/src/syn_engine/convert.rs: leading/trailing binder handling")])
prop("C20", "Errors inside a delimited block stay inside it",
 "Whatever stands between a block's matching delimiters, the block's node ends at its closing delimiter and what follows is parsed as if the block were correct; tokens the block's content rule does not consume become errors within the block.",
 ["inputs"], "all bracket-balanced contents up to the stated length for three content rules",
 "Error recovery in half-written code is a stated design constraint; tests contain a few broken files.",
 ["fall/parse/src/syn_engine/expr.rs", "fall/parse/src/syn_engine/parser.rs"], [("layers", "fall/parse/src/syn_engine/expr.rs: parse_layer; parser.rs: cut_suffix")])
prop("C21", "Any text parses as a grammar file without loss",
 "Parsing any text as a grammar file terminates without a crash, and the tree spells the text exactly, inside and outside of every construct of the grammar language.",
 ["inputs"], "all byte strings and all token sequences up to the stated lengths, at top level and inside rule, tokenizer and AST blocks",
 "Grammar files under edit are mostly incomplete; the tests parse complete ones.",
 ["lang/fall/syntax/src/fall.rs", "lang/fall/syntax/src/fall.fall"], [("generated grammar", "lang/fall/syntax/src/fall.rs"), ("string literals", "lang/fall/syntax/src/fall.rs: parse_raw_string")])
prop("C22", "Any text parses as Rust without loss, and operators nest by Rust's rules",
 "Parsing any text as Rust terminates without a crash, and the tree spells the text exactly. Expressions built from Rust's operators nest by Rust's documented precedence.",
 ["inputs"], "all byte strings and all token sequences up to the stated lengths, at top level and inside modules, functions and types",
 "Rust sources under edit are mostly incomplete; the tests parse mostly complete ones.",
 ["lang/rust/syntax/src/rust.rs", "lang/rust/syntax/src/rust.fall"], [("generated grammar", "lang/rust/syntax/src/rust.rs"), ("string literals", "lang/rust/syntax/src/rust.rs: parse_raw_string"), ("whitespace policy", "lang/rust/syntax/src/rust.rs: whitespace_binder")])
prop("C23", "Editing a Rust file gives the tree of the new text",
 "Applying an edit to a parsed Rust file incrementally gives the same tree as parsing the edited text from scratch, with function bodies and blocks reused from the old tree.",
 ["inputs", "histories"], "all token sequences of the stated length at top level, inside a module and between functions, and all single-place edits of them within the stated sizes",
 "One test edits one file at one place.",
 ["lang/rust/syntax/src/rust.rs", "fall/parse/src/lib.rs", "fall/parse/src/lex_engine.rs", "fall/parse/src/syn_engine/mod.rs"],
 [("cached rules of the grammar", "lang/rust/syntax/src/rust.fall: #[cached]"), ("reuse", "fall/parse/src/syn_engine/mod.rs: salvage_segments; lex_engine.rs: relex")])
prop("C24", "The grammar-file editor answers for any text",
 "For any text opened as a grammar file, however incomplete, every editor service (highlighting, diagnostics, structure, syntax tree, formatting, go to definition, find usages, test under the caret, extending the selection, listing and applying context actions) returns, with ranges inside the text, and an action is listed exactly when applying it does something.",
 ["inputs"], "all token sequences of the stated length at top level and inside every construct, all offsets and selections",
 "While somebody types, nearly every text is incomplete; tests open complete grammars at one offset.",
 ["lang/fall/src/editor/mod.rs", "lang/fall/src/analysis/mod.rs", "lang/fall/syntax/src/ast_ext.rs", "fall/editor/src/lib.rs"],
 [("services", "lang/fall/src/editor/mod.rs: impl EditorFileImpl for FileWithAnalysis"), ("queries", "lang/fall/src/analysis/query/"), ("typed accessors", "lang/fall/syntax/src/ast_ext.rs")])
prop("C25", "Extending the selection and swapping list items work on any tree",
 "Extending a selection gives the range of the smallest tree node that is larger and contains it, until the whole file is selected; from a caret it gives the word there, or in the indentation of a line what covers that line. 'Swap' exchanges exactly the two items around the comma at the caret and is offered exactly when there are two of the same kind.",
 ["inputs"], "all trees up to the stated number of nodes, all selections and carets",
 "Shared by all editors; the tests use one selection in one file.",
 ["fall/editor/src/extend_selection.rs", "fall/editor/src/actions.rs"],
 [("extend selection", "fall/editor/src/extend_selection.rs: extend_selection"), ("swap", "fall/editor/src/actions.rs: default_context_actions, apply_default_context_action")])
prop("C26", "Formatting a grammar changes only blanks and is stable",
 "Reformatting a grammar file changes nothing but whitespace: the tree without whitespace stays the same. In a file without syntax errors, formatting a second time changes nothing, and within a line pipes stand between single spaces and angle brackets hug their contents.",
 ["inputs"], "all rule bodies of the stated number of pieces, blanks, comments and line breaks included",
 "Tests format two one-line rules.",
 ["lang/fall/src/editor/formatter.rs", "fall/tree/src/edit.rs"], [("spacing rules", "lang/fall/src/editor/formatter.rs: FALL_SPACING, Spacer::apply")])
prop("C27", "Names in a grammar lead to their definitions and back",
 "Going to the definition of a name in a rule leads to the parameter of that name, otherwise to the first rule, otherwise to the last token defined under it, and nowhere if there is none. Finding the usages of a definition lists exactly the names that lead to it, in order; colours and the file outline agree with that.",
 ["inputs", "programs"], "all grammars of the stated shape over a small set of names, all offsets within names",
 "Shadowing, duplicate names and quoted token references combine in ways the single example in the tests does not show.",
 ["lang/fall/src/editor/references/mod.rs", "lang/fall/src/editor/references/refdec.rs", "lang/fall/src/analysis/query/resolve_ref_expr.rs", "lang/fall/src/analysis/query/resolve_call.rs", "lang/fall/src/editor/highlighting.rs", "lang/fall/src/editor/structure.rs"],
 [("resolution", "lang/fall/src/analysis/query/resolve_ref_expr.rs, resolve_call.rs, find_syn_rule.rs, find_lex_rule.rs"), ("usages", "lang/fall/src/editor/references/refdec.rs: find_usages")])
prop("C28", "A grammar's diagnostics are complete, exact and stable",
 "The diagnostics of a grammar file are exactly the problems it has: unresolved names, duplicate rules and tokens, unused rules, contexts used once, wrong argument counts and kinds, malformed operator rules, each reported once per place, errors before warnings and in text order. Asking other questions first, or asking twice, does not change them.",
 ["inputs", "programs", "histories"], "all grammars of the stated shape, asked before and after other services",
 "The answer is collected from cached queries that run in whatever order services are called.",
 ["lang/fall/src/analysis/mod.rs", "lang/fall/src/analysis/db.rs", "lang/fall/src/analysis/query/unused_rules.rs", "lang/fall/src/analysis/query/resolve_call.rs", "lang/fall/src/analysis/query/resolve_pratt_variant.rs", "lang/fall/src/analysis/query/all_syn_rules.rs", "lang/fall/src/analysis/query/all_context_ids.rs"],
 [("collection", "lang/fall/src/analysis/mod.rs: collect_all_diagnostics"), ("query cache", "lang/fall/src/analysis/db.rs: QExecutor::execute")])
prop("C29", "Refactorings of grammar files keep every token in its place",
 "In a grammar file without syntax errors, 'Swap alternatives' exchanges exactly the two alternatives around the pipe at the caret, and 'Extract rule' moves exactly the smallest expression or run of parts around the selection into a new rule, leaving a reference in its place and every other token as it was; neither introduces a syntax error, and each is offered exactly where it applies.",
 ["inputs"], "all rule bodies of the stated number of pieces, all carets and selections",
 "Tests apply each to one rule; empty alternatives, nested blocks, whole bodies and adjacent tokens are not among them.",
 ["lang/fall/src/editor/actions/swap_alternatives.rs", "lang/fall/src/editor/actions/extract_rule.rs", "fall/tree/src/edit.rs"],
 [("swap alternatives", "lang/fall/src/editor/actions/swap_alternatives.rs: find_swappable_nodes"), ("extract rule", "lang/fall/src/editor/actions/extract_rule.rs: extract_rule, range_to_extract")])
prop("C30", "Generated parsers do what the grammar file says",
 "The parser generator turns a grammar without errors into a parser whose trees are those the grammar's expressions, attributes, calls, parameters, contexts and operator priorities prescribe. It never crashes: a grammar it cannot turn into a parser is refused, and every number in the tables it does produce refers to an existing rule, token or node type.",
 ["programs", "inputs"], "all grammar files of the stated shape and all texts of the stated length given to the parsers they turn into",
 "Tests generate the parsers of a handful of fixed grammars; nested arguments, many parameters or contexts, odd attributes and ill-formed input are not among them.",
 ["fall/gen/src/generate/mod.rs", "fall/gen/src/generate/codegen.rs", "fall/parse/src/lib.rs", "fall/parse/src/syn_engine/expr.rs", "lang/fall/src/ast_ext.rs"],
 [("table generation", "fall/gen/src/generate/codegen.rs: gen_rule, gen_expr"), ("names", "fall/gen/src/generate/mod.rs: camel, scream"), ("calls", "fall/parse/src/syn_engine/expr.rs: Expr::Call, Expr::Var")])

prop("C31", "Rust editor services answer for any text, and agree with its syntax tree",
 "Every service of the Rust editor answers for any text, complete or not, and any offset or selection in it: highlighting, diagnostics, outline, syntax tree, breadcrumbs, selection extension, completion of 'let ', print expansion and code actions never crash, and every range they return lies in the file. The outline lists exactly the named definitions of the tree; breadcrumbs name the definitions the caret is in, outer ones first; 'let ' is completed exactly in an unfinished let statement; print expansion rewrites exactly the expression before the caret. An action is offered exactly when it can be applied; 'Add impl' adds an impl with the type's own parameters and 'Add braces' keeps what the import means, and neither introduces a syntax error.",
 ["inputs"], "all texts of the stated number of pieces, all offsets and selections",
 "Tests call three services on one text each; offsets at the ends of a file, incomplete code, aliases, bounds and lifetimes are not among them.",
 ["lang/rust/src/editor/mod.rs", "lang/rust/src/editor/actions.rs", "lang/rust/src/editor/file_symbols.rs", "fall/editor/src/actions/mod.rs", "fall/tree/src/edit.rs"],
 [("services", "lang/rust/src/editor/mod.rs: RustEditorFile"), ("actions", "lang/rust/src/editor/actions.rs: add_use_braces, add_impl_for"), ("outline", "lang/rust/src/editor/file_symbols.rs: process_symbols")])
prop("C32", "Symbol search finds exactly the symbols whose name contains the query",
 "A symbol query returns exactly the definitions of the indexed files whose name contains the query's letters in order, ignoring case: types only, or every definition when the query has a '#' or no type matches. Each is reported once, with its file, kind, name, range, and the line and column of its two ends.",
 ["inputs"], "all indexes and queries of the stated size",
 "There is no test of the search at all.",
 ["lang/rust/src/editor/symbol_index.rs", "lang/rust/src/editor/fst_subseq.rs", "lang/rust/src/editor/line_index.rs", "lang/rust/src/editor/file_symbols.rs"],
 [("query", "lang/rust/src/editor/symbol_index.rs: Query::process, FileSymbols::new"), ("automaton", "lang/rust/src/editor/fst_subseq.rs: FstSubSeq"), ("lines", "lang/rust/src/editor/line_index.rs: LineIndex::translate")], hook="lang/rust/src/editor/symbol_index.rs: SymbolIndex::of_texts")

prop("C33", "The file index holds what is on disk where it was told to look",
 "After it is told of a change at a path, the file index holds, at that path and under it, exactly the files with the wanted extension that are there, each once and with its value computed from its present content, and elsewhere exactly what it held before. This is so for files and directories that appeared, changed, went away or took each other's place, and for the first indexing of a root. A reader is shown every file until it has seen enough.",
 ["inputs", "histories"], "all small file systems, all sequences of states and reported paths of the stated length",
 "There is no test of the index at all.",
 ["indxr/src/lib.rs"],
 [("changes", "indxr/src/lib.rs: FileIndexImpl::change"), ("readers", "indxr/src/lib.rs: FileIndex::process_files")], hook="indxr/src/lib.rs: FileIndex::unwatched, FileIndex::changed")

prop("C34", "Edits reach the text editor, and come from it, as the same edits",
 "The replacements handed to the text editor for an edit of a tree lie in the old text, in order and without overlap, and carrying them out there gives exactly the text the edit gives, whatever it changes and also at the very end of the text. Replacements coming from the editor in text order become the edit that does exactly them; replacements that go backwards or overlap are refused, and so is one that ends before it starts.",
 ["inputs"], "all edits of all small trees; all sequences of replacements",
 "The crate is not built by the workspace and has no tests.",
 ["code/generic_backend/src/lib.rs"],
 [("to the editor", "code/generic_backend/src/lib.rs: to_vs_edits"), ("from the editor", "code/generic_backend/src/lib.rs: from_vs_edits"), ("edits of trees", "fall/tree/src/edit.rs: FileEdit::into_text_edit")])

prop("C35", "Well-formed grammar files parse to the structure of the language",
 "A file of the grammar language parses without error nodes exactly when it is well formed: rules with attributes, parameters and a body, tokenizer, verbatim, test and AST blocks. It then has the nesting the language defines: alternatives of sequences, calls with their arguments, repetition and option binding to what stands directly before them, attributes and parameters in lists that may end with a comma, and AST methods with their selectors; words that are keywords in one place stay plain names in every other.",
 ["inputs"], "every sequence of tokens up to the bound, in every part of a grammar file",
 "The tests hold a handful of dumps.",
 ["lang/fall/syntax/src/fall.fall", "lang/fall/syntax/src/fall.rs", "fall/parse/src/syn_engine"],
 [("rules", "lang/fall/syntax/src/fall.fall: syn_rule, block_expr, expr"), ("tokens and attributes", "lang/fall/syntax/src/fall.fall: lex_rule, attributes"), ("AST blocks", "lang/fall/syntax/src/fall.fall: ast_def, method_def")])

prop("C36", "Well-formed Rust parses to its structure",
 "A well-formed Rust file (of the language the grammar covers) parses without error nodes to the tree the language defines, whatever is combined with what: items with their attributes, visibility, parameters, bounds and where clauses; types, paths and patterns; expressions nested in each other. In particular an expression that begins with a block ends the statement or match arm it begins unless a method call, a field or `?` follows, and ends nothing anywhere else; in a condition a brace begins the body, except inside brackets; and brackets nested in angle brackets are balanced on their own.",
 ["inputs"], "every text derived from the forms of the language up to the nesting bound, each with the tree it was derived with",
 "The tests hold dumps of a hundred small samples; constructs interfere when they meet.",
 ["lang/rust/syntax/src/rust.fall", "lang/rust/syntax/src/rust.rs", "fall/parse/src/syn_engine"],
 [("items", "lang/rust/syntax/src/rust.fall: mod_form, fn_def, impl_def"), ("types and patterns", "lang/rust/syntax/src/rust.fall: type_reference, pattern"), ("statements and expressions", "lang/rust/syntax/src/rust.fall: expr_stmt, match_arm, expr, path_expr")])

exec(open(os.path.join(V, "tools", "spec_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "spec_more.py")) else None

NOTE = ("Bounded: decided for every value of the symbolic inputs within the bounds the evidence file states, by path-wise symbolic execution of the LLVM code "
        "that the repository's compiler produces from the working tree (optimisation level 1, overflow and debug checks on), with z3 as the solver. Trusted: the executor in /verif/engine "
        "(cross-checked on every run by replaying path witnesses on the natively compiled crate and by re-checking path conditions with z3), rustc, the harness's reference model. Nothing is claimed outside the bounds.")
def main():
    import sys
    sys.path.insert(0, V)
    import props
    claimed = [p for p in P if not p["_na"]]
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
    m = dict(version=1, setup_cmd="python3 check.py --setup")
    if getattr(props, "HOOK_COMMITS", None):
        m["hooks"] = dict(guard="verif_hooks (rustc --cfg)", enable="RUSTFLAGS=--cfg verif_hooks, set by check.py for its own builds", source_commits=props.HOOK_COMMITS)
    m["checks"] = [dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                        technique="symbolic execution of the compiled Rust code (LLVM bitcode) with z3", level="model_checking", level_note=p["_note"] or NOTE) for p in claimed]
    m["not_applicable"] = [dict(property=p["id"], reason=p["_na"]) for p in P if p["_na"]]
    m["notes"] = "See DESIGN.md. Every check rebuilds the crates it needs from /repo's working tree. known_findings.json lists repaired and recorded defects."
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    for p in claimed: assert p["id"] in props.PROPS, p["id"]
    for p in props.PROPS: assert any(q["id"] == p for q in claimed), p
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
    print(len(P), "properties,", len(claimed), "claimed")
main()
