"""What each property's check runs: entries of the harness crate with their size parameters."""
CFG = " --cfg verif_hooks"
HOOK_COMMITS = ["3874457", "1d3c7dc", "22b7c37"]
COMMON_ASSUMPTIONS = [
  "rustc 1.52.1 (the repository's toolchain) at opt-level 1 with overflow and debug assertions; x86-64; single thread",
  "allocation never fails; HashMap's random keys are fixed values; std is taken as the bitcode shipped with the toolchain",
  "the executor in /verif/engine implements LLVM IR correctly (cross-checked on every run: sampled path witnesses are replayed on the native build and must give the same observations)",
]
TH = "thorough"
def R(entry, params=(), **k):
    return dict(entry=entry, params=list(params), **k)
PROPS = {
 "C01": dict(features=['text'], bounds='All 32-bit offsets (single, pairs), all pairs of ranges with 32-bit ends; indexing: all strings of 3 characters (1- to 4-byte) with all sub-ranges.',
   outside='Sums of more than three offsets.',
   runs=[
    R("c01_units",reach=[1,2]),
    R("c01_underflow",reach=[1]),
    R("c01_overflow",reach=[1]),
    R("c01_serde",reach=[1,2]),
    R("c01_bad_range",reach=[1]),
    R("c01_range",reach=[1,2]),
    R("c01_glue_gap",reach=[1]),
    R("c01_pair",reach=[1,2,3]),
    R("c01_order",reach=[1,2,3]),
    R("c01_index",[3],reach=[1]),
    R("c01_index",[5],reach=[1],tier=TH),
   ]),
 "C02": dict(features=['text'], bounds='Texts of up to 3 symbolic characters of 1-4 bytes (4 in thorough) with every view and slice; searches of needles up to 2 bytes (3 in thorough) in views of buffers of up to 4 bytes (6 in thorough).',
   outside='Longer texts and needles.',
   runs=[
    R("c02_slice",[3],reach=[1]),
    R("c02_slice_oob",[3],reach=[1]),
    R("c02_search",[4,2,0],reach=[1,2]),
    R("c02_search",[2,1,1],reach=[2]),
    R("c02_trim",[3],reach=[1,2]),
    R("c02_slice",[4],reach=[1],tier=TH),
    R("c02_search",[6,3,0],reach=[1,2],tier=TH),
    R("c02_search",[3,2,1],reach=[2],tier=TH),
    R("c02_trim",[5],reach=[1,2],tier=TH),
   ]),
 "C03": dict(features=['text'], bounds='Texts of up to 3 characters (4 in thorough), 2 builder operations of any kind at any positions (3 in thorough); hand-built edits of up to 2 ops against views (3 in thorough).',
   outside='Longer texts and longer sequences of operations.',
   runs=[
    R("c03_builder",[3,2],reach=[1]),
    R("c03_view",[3],reach=[1]),
    R("c03_invalid",[2],reach=[1]),
    R("c03_apply",[2,3],reach=[1]),
    R("c03_misfit",[3],reach=[1]),
    R("c03_builder",[4,3],reach=[1],tier=TH),
    R("c03_view",[5],reach=[1],tier=TH),
    R("c03_invalid",[4],reach=[1],tier=TH),
    R("c03_apply",[3,4],reach=[1],tier=TH),
   ]),
 "C04": dict(features=['text'], bounds='Pairs (for transitivity: triples) of views of two buffers of up to 2 symbolic characters (3 in thorough), hashing up to 4.',
   outside='Longer texts.',
   runs=[
    R("c04_eq",[2],reach=[1,2]),
    R("c04_hash",[4],reach=[1]),
    R("c04_eq",[3],reach=[1,2],tier=TH),
    R("c04_hash",[7],reach=[1],tier=TH),
   ]),
 "C05": dict(features=['tree'], bounds='All construction scripts of 5 steps (7 in thorough) over three node types with symbolic leaf lengths 0-3.',
   outside='Larger trees.',
   runs=[
    R("c05_build",[5],reach=[1]),
    R("c05_text",[5],reach=[1]),
    R("c05_malformed",[5],reach=[1,2]),
    R("c05_build",[7],reach=[1],tier=TH),
    R("c05_text",[6],reach=[1],tier=TH),
    R("c05_malformed",[7],reach=[1,2],tier=TH),
   ]),
 "C06": dict(features=['tree'], bounds='All trees of construction scripts of 5 steps (6 in thorough) with symbolic leaf lengths, every offset, every start node.',
   outside='Larger trees.',
   runs=[
    R("c06_leaf",[5],reach=[1,2,3]),
    R("c06_subtree",[4],reach=[1,2]),
    R("c06_leaf",[7],reach=[1,2,3],tier=TH),
    R("c06_subtree",[6],reach=[1,2],tier=TH),
   ]),
 "C07": dict(features=['tree'], bounds='All trees of construction scripts of 5 steps (6 in thorough) with symbolic leaf lengths, every range.',
   outside='Larger trees.',
   runs=[
    R("c07_cover",[5],reach=[1,2,3]),
    R("c07_outside",[3],reach=[1]),
    R("c07_cover",[6],reach=[1,2,3],tier=TH),
    R("c07_outside",[5],reach=[1],tier=TH),
   ]),
 "C08": dict(features=['tree'], bounds='All trees of construction scripts of 4-5 steps (6 in thorough) over three node types, every start node.',
   outside='Larger trees.',
   runs=[
    R("c08_navigate",[5],reach=[1]),
    R("c08_traverse",[5],reach=[1]),
    R("c08_types",[5],reach=[1]),
    R("c08_at_offset",[4],reach=[1]),
    R("c08_visitor",[4],reach=[1]),
    R("c08_navigate",[7],reach=[1],tier=TH),
    R("c08_traverse",[7],reach=[1],tier=TH),
    R("c08_types",[6],reach=[1],tier=TH),
    R("c08_at_offset",[6],reach=[1],tier=TH),
    R("c08_visitor",[6],reach=[1],tier=TH),
   ]),
 "C09": dict(features=['tree'], bounds='All trees of construction scripts of 4 steps (6 in thorough), up to 2 edit operations on distinct nodes (3 in thorough), every substring replacement.',
   outside='Two operations on one node; larger trees.',
   runs=[
    R("c09_edit",[4,2,1],reach=[1]),
    R("c09_edit",[5,2,1],reach=[1],tier=TH),
    R("c09_substring",[4],reach=[1,2]),
    R("c09_replace_node",[4],reach=[1]),
    R("c09_edit",[5,3,1],reach=[1],tier=TH),
    R("c09_substring",[6],reach=[1,2],tier=TH),
   ]),
 "C10": dict(features=['parse'], bounds='All grammars of nesting depth 1 over the combinator pool (2 in thorough) with all texts of up to 4 symbols (letters, spaces, a character no token matches) and whitespace policies.',
   outside='Deeper grammars, longer texts; grammars that loop without consuming text (repetition of a nullable expression, left recursion).',
   runs=[
    R("c10_lossless",[1,4,0],reach=[1]),
    R("c10_lossless",[2,2,0],reach=[1],tier=TH),
   ]),
 "C11": dict(features=['json', 'bnf'], bounds='Every ASCII text of 3 bytes; every sequence of 5 tokens (JSON; 4 inside an array, a field or both) and of 6 tokens (BNF). Thorough: 4 bytes, 6 and 7 tokens.',
   outside='Longer documents; non-ASCII text (C15 covers the lexer there).',
   runs=[
    R("json_bytes",[3]),
    R("json_tokens",[5,0],reach=[1,2]),
    R("json_tokens",[4,1],reach=[1,2]),
    R("json_tokens",[4,2],reach=[1,2]),
    R("json_tokens",[4,3],reach=[1,2]),
    R("bnf_bytes",[3]),
    R("bnf_tokens",[6,0],reach=[1,2]),
    R("bnf_tokens",[6,1],reach=[1,2]),
    R("json_bytes",[4],tier=TH),
    R("json_tokens",[6,0],reach=[1,2],tier=TH),
    R("json_tokens",[6,3],reach=[1,2],tier=TH),
    R("bnf_bytes",[4],tier=TH),
    R("bnf_tokens",[8,0],reach=[1,2],tier=TH),
   ]),
 "C12": dict(features=['json', 'bnf', 'fall'], bounds='Texts of 3 tokens (at top level, inside an array, inside and between rules; 4 tokens of a smaller alphabet for the grammar language), all edits that delete up to 1 token and insert up to 1 token at one place. Thorough: 2 and 2.',
   outside='Edits inside a token, several places at once (C13, C14 cover these for synthetic grammars), longer texts; raw string literals that an edit elsewhere turns into a longer token (known finding).',
   runs=[
    R("json_edit",[3,1,1,1],reach=[1]),
    R("bnf_edit",[3,1,1],reach=[1]),
    R("fall_edit",[4,1,1,0,1],reach=[1]),
    R("fall_edit",[3,1,1,1,1],reach=[1,2]),
    R("fall_edit",[3,1,1,2,1],reach=[1,2]),
    R("fall_raw_edit"),
    R("json_edit",[4,2,1,0],reach=[1],tier=TH),
    R("bnf_edit",[3,2,2],reach=[1],tier=TH),
    R("fall_edit",[3,1,1,0,0],reach=[1],tier=TH),
    R("fall_edit",[4,2,1,1,1],reach=[1,2],tier=TH),
   ]),
 "C13": dict(features=['parse'], bounds='Ten grammars with cached rules (delimited, recursive, looking ahead, at contexts, at the previous node, with arguments, injected); texts of 4 symbols, one hunk (3 symbols: two hunks) with up to 1 deleted and 1 inserted symbol each. Every grammar with one operator or leaf inside and outside a cached rule, texts of 2 or 3 symbols, one hunk. Thorough: 5 and 4 symbols; 3 symbols in the last.',
   outside='Longer texts and deeper grammars; more than two edits in a row.',
   runs=[
    R("c13_edit",[4,1,1,0,0],reach=[1,2]),
    R("c13_edit",[4,1,1,1,1],reach=[1,2]),
    R("c13_edit",[4,1,1,1,2],reach=[1,2]),
    R("c13_edit",[4,1,1,0,3],reach=[1,2]),
    R("c13_edit",[4,1,1,1,4],reach=[1,2]),
    R("c13_edit",[4,1,1,0,5],reach=[1,2]),
    R("c13_edit",[4,1,1,0,6],reach=[1,2]),
    R("c13_edit",[4,1,1,0,7],reach=[1,2]),
    R("c13_edit",[4,1,1,1,8],reach=[1,2]),
    R("c13_edit",[4,1,1,0,9],reach=[1,2]),
    R("c13_edit",[3,2,1,1,0],reach=[1,2]),
    R("c13_any",[1,0,3,1,1],reach=[1,2]),
    R("c13_any",[1,1,2,1,0],reach=[1,2]),
    R("c13_any",[1,1,3,1,0],reach=[1,2],tier=TH),
    R("c13_edit",[5,1,1,0,0],reach=[1,2],tier=TH),
    R("c13_edit",[4,2,1,1,0],reach=[1,2],tier=TH),
   ]),
 "C14": dict(features=['parse'], bounds='Five lexers; texts of 4 characters (6 for two of them), 1 hunk with up to 2 inserted characters. Thorough: 5 characters, 2 hunks.',
   outside='Lexers whose tokens depend on text further than one character after the token (block strings and the like); longer texts.',
   runs=[
    R("c14_relex",[4,1,2,0],reach=[1]),
    R("c14_relex",[4,1,2,1],reach=[1]),
    R("c14_relex",[4,1,2,2],reach=[1]),
    R("c14_relex",[6,1,1,3],reach=[1]),
    R("c14_relex",[6,1,1,4],reach=[1]),
    R("c14_relex",[4,2,1,4],reach=[1],tier=TH),
    R("c14_relex",[8,1,2,4],reach=[1],tier=TH),
    R("c14_relex",[3,2,1,0],reach=[1],tier=TH),
    R("c14_relex",[3,2,1,1],reach=[1],tier=TH),
    R("c14_relex",[3,2,1,2],reach=[1],tier=TH),
    R("c14_relex",[5,1,1,0],reach=[1],tier=TH),
    R("c14_relex",[5,1,1,2],reach=[1],tier=TH),
   ]),
 "C15": dict(features=['parse'], bounds='All selections of 3 rules from a pool of eight, all texts of 3 characters (4 in thorough), non-ASCII included.',
   outside="Other regular expressions (the matching itself is the regex crate's).",
   runs=[
    R("c15_lex",[3,3,1],reach=[1]),
    R("c15_lex",[3,4,1],reach=[1],tier=TH),
   ]),
 "C16": dict(features=['parse'], bounds='All priority assignments over 1-3 levels for two infix, one prefix and one postfix operator; all expressions of 7 tokens (8 in thorough).',
   outside='Longer expressions; more operators.',
   runs=[
    R("c16_pratt",[7,0],reach=[1,2]),
    R("c16_pratt",[6,1]),
    R("c16_pratt",[8,0],reach=[1,2],tier=TH),
   ]),
 "C17": dict(features=['parse'], bounds='All grammars of nesting depth 2 over fourteen combinators with all texts of 3 symbols.',
   outside='Deeper grammars, longer texts; repetition of nullable expressions; left recursion.',
   runs=[
    R("c17_expr",[2,3],reach=[1]),
    R("c17_ctx",[4],reach=[1]),
    R("c17_ctx",[6],reach=[1],tier=TH),
    R("c17_expr",[2,4],reach=[1],tier=TH),
   ]),
 "C18": dict(features=['parse'], bounds='All grammars of nesting depth 2 over sixteen combinators with all texts of 2 symbols.',
   outside='Deeper grammars, longer texts; repetition of nullable expressions; left recursion; arguments of nested calls that refer to arguments.',
   runs=[
    R("c18_state",[1,2,0],reach=[1]),
    R("c18_state",[2,2,0],reach=[1]),
    R("c18_state",[1,2,2],reach=[1]),
    R("c18_state",[2,3,0],reach=[1],tier=TH),
   ]),
 "C19": dict(features=['parse'], bounds='All whitespace policies claiming up to 2 tokens per side for each of four node types; all texts of 4 symbols.',
   outside='Longer texts.',
   runs=[
    R("c19_binder",[4,0],reach=[1]),
    R("c19_binder",[4,1],reach=[1]),
    R("c19_binder",[5,0],reach=[1],tier=TH),
   ]),
 "C20": dict(features=['parse'], bounds='All bracket-balanced texts of 7 symbols (9 in thorough) for three content rules.',
   outside='Longer texts; nested layers with different delimiters.',
   runs=[
    R("c20_layer",[7,0],reach=[1,2]),
    R("c20_layer",[7,1],reach=[1,2]),
    R("c20_layer",[7,2],reach=[1,2]),
    R("c20_layer",[7,3],reach=[1]),
    R("c20_layer",[9,0],reach=[1,2],tier=TH),
    R("c20_layer",[9,1],reach=[1,2],tier=TH),
    R("c20_layer",[9,2],reach=[1,2],tier=TH),
    R("c20_layer",[9,3],reach=[1],tier=TH),
   ]),
 "C21": dict(features=['fall'], bounds='Every ASCII text of 3 bytes; every sequence of 3 tokens out of 22, at top level and inside rule, tokenizer, AST and node blocks. Thorough: 4 bytes, 4 tokens.',
   outside='Longer texts; non-ASCII text (C15 covers the lexer there).',
   runs=[
    R("fall_bytes",[3]),
    R("fall_raw",reach=[1,2]),
    R("fall_tokens",[3,0],reach=[1,2]),
    R("fall_tokens",[3,1],reach=[1,2]),
    R("fall_tokens",[3,2],reach=[1,2]),
    R("fall_tokens",[3,3],reach=[1,2]),
    R("fall_tokens",[3,4],reach=[1,2]),
    R("fall_bytes",[4],tier=TH),
    R("fall_tokens",[4,0],reach=[1,2],tier=TH),
    R("fall_tokens",[4,1],reach=[1,2],tier=TH),
    R("fall_tokens",[4,3],reach=[1,2],tier=TH),
   ]),
 "C22": dict(features=['rust'], bounds='Every ASCII text of 2 bytes (3 in thorough); every sequence of 3 tokens (4 in thorough) out of 20-30, at top level, in modules, functions, blocks and types; operator expressions as stated for rust_expr.',
   outside='Longer texts; non-ASCII text.',
   runs=[
    R("rust_bytes",[2]),
    R("rust_raw",reach=[1,2]),
    R("rust_expr",[4,11,0,0],reach=[1]),
    R("rust_expr",[3,31,0,1],reach=[1]),
    R("rust_expr",[3,31,0,2],reach=[1]),
    R("rust_expr",[2,11,1,0],reach=[1]),
    R("rust_expr",[2,6,1,3],reach=[1]),
    R("rust_assign"),
    R("rust_expr",[5,11,0,0],reach=[1],tier=TH),
    R("rust_expr",[3,11,1,0],reach=[1],tier=TH),
    R("rust_tokens",[3,0],reach=[1,2]),
    R("rust_tokens",[3,1],reach=[1,2]),
    R("rust_tokens",[3,2],reach=[1,2]),
    R("rust_tokens",[3,3],reach=[1,2]),
    R("rust_tokens",[3,4],reach=[1,2]),
    R("rust_bytes",[3],tier=TH),
    R("rust_tokens",[4,0],reach=[1,2],tier=TH),
    R("rust_tokens",[4,1],reach=[1,2],tier=TH),
    R("rust_tokens",[4,2],reach=[1,2],tier=TH),
    R("rust_tokens",[4,3],reach=[1,2],tier=TH),
    R("rust_tokens",[4,4],reach=[1,2],tier=TH),
   ]),
 "C23": dict(features=['rust'], bounds='Texts of 3 tokens out of 10 at top level and 2 inside a module, alone and between functions (3 in thorough); all edits that delete up to 1 token and insert up to 1 token at one place.',
   outside='Edits inside a token; longer texts; literals that an edit elsewhere turns into a longer token (known finding).',
   runs=[
    R("rust_edit",[3,1,1,0,1],reach=[1]),
    R("rust_raw_edit"),
    R("rust_char_edit"),
    R("rust_edit",[2,1,1,1,1],reach=[1,2]),
    R("rust_edit",[2,1,1,3,1],reach=[1,2]),
    R("rust_edit",[3,1,1,1,1],reach=[1,2],tier=TH),
    R("rust_edit",[3,1,1,2,1],reach=[1,2],tier=TH),
    R("rust_edit",[4,1,1,0,1],reach=[1],tier=TH),
   ]),
 "C30": dict(features=['gen'], bounds='Grammars: every expression with one operator out of 19 (sequence, choice, commit, option, repetition, rule, node, replaceable and replacing node, cached rule, contexts, layers, skipping, injection, negation, call) over 10 leaves, with all texts of 2 letters; recursive rules with two parameters and every pair out of 6 arguments, texts of 4; up to 22 parameters and contexts; operator tables of 3 operators with 4 kinds and 4 priorities, texts of 3. Crash-freedom: 3 pieces (4 in thorough) out of 10 to 15 in a rule body, a call, rule heads, the tokenizer, the AST definition and an accessor. Thorough: two operators.',
   outside='The text of the generated Rust file (the template engine is not executed; what is decided is the data it is rendered from, interpreted by the same runtime the generated file hands it to), bodies of generated accessors, running the tests of a grammar (starts a compiler).',
   runs=[
    R("gen_meaning",[1,2,1],reach=[1,2]),
    R("gen_closure",[4],reach=[1,2]),
    R("gen_many",[20],reach=[1,2]),
    R("gen_pratt",[3],reach=[1,2]),
    R("gen_total",[3,0],reach=[1,2]),
    R("gen_total",[3,1],reach=[1,2]),
    R("gen_total",[3,2],reach=[1,2]),
    R("gen_total",[3,3],reach=[1,2]),
    R("gen_total",[3,4],reach=[1,2]),
    R("gen_total",[3,5],reach=[1,2]),
    R("gen_meaning",[2,2,0],reach=[1,2],tier=TH), R("gen_closure",[6],reach=[1,2],tier=TH), R("gen_pratt",[4],reach=[1,2],tier=TH),
    R("gen_total",[4,0],reach=[1,2],tier=TH), R("gen_total",[4,1],reach=[1,2],tier=TH), R("gen_total",[4,2],reach=[1,2],tier=TH),
    R("gen_total",[4,3],reach=[1,2],tier=TH), R("gen_total",[4,4],reach=[1,2],tier=TH), R("gen_total",[4,5],reach=[1,2],tier=TH),
   ]),
}
PROPS["C24"] = dict(features=['fallide'], bounds='Texts of 3 pieces (4 in thorough) out of about 20 tokens: bare, inside a rule body, a call, a tokenizer, an AST block, an AST node and in front of a rule; every offset and every selection of those with 1 or 2 pieces.',
   outside='Longer texts; test rendering (it runs the compiler).',
   runs=[
    R("fe_views",[3,0]), R("fe_views",[3,1],reach=[1]), R("fe_views",[3,2],reach=[1]), R("fe_views",[3,3],reach=[1]), R("fe_views",[3,4],reach=[1]), R("fe_views",[3,5],reach=[1]), R("fe_views",[3,6],reach=[1]),
    R("fe_offset",[2,1],reach=[1]), R("fe_offset",[2,3]), R("fe_offset",[2,5],reach=[1]),
    R("fe_range",[2,2],reach=[1]), R("fe_range",[2,4]), R("fe_range",[1,0]), R("fe_range",[1,1],reach=[1]), R("fe_range",[1,3]), R("fe_range",[1,5],reach=[1]),
    R("fe_views",[4,1],reach=[1],tier=TH), R("fe_views",[4,2],reach=[1],tier=TH), R("fe_views",[4,3],reach=[1],tier=TH), R("fe_views",[4,4],reach=[1],tier=TH), R("fe_views",[4,5],reach=[1],tier=TH), R("fe_views",[4,0],reach=[1],tier=TH),
    R("fe_offset",[3,0],tier=TH), R("fe_offset",[3,1],reach=[1],tier=TH), R("fe_offset",[3,3],tier=TH), R("fe_offset",[3,4],tier=TH), R("fe_offset",[3,5],reach=[1],tier=TH),
    R("fe_range",[2,1],reach=[1],tier=TH), R("fe_range",[2,0],tier=TH), R("fe_range",[2,3],tier=TH),
])
PROPS["C25"] = dict(features=['edit'], bounds='Trees of 4 leaves and inner nodes (5-6 in thorough), nested up to 4 deep, leaves being words, commas, blanks, line breaks and indentation, empty leaves included; all selections and carets.',
   outside='Larger trees.',
   runs=[
    R("ed_extend",[4,1],reach=[1,2]), R("ed_caret",[4,1],reach=[1,2,3]), R("ed_swap",[4,2],reach=[1,2]),
    R("ed_extend",[5,1],reach=[1,2],tier=TH), R("ed_caret",[6,1],reach=[1,2,3],tier=TH), R("ed_swap",[5,2],reach=[1,2],tier=TH),
])
PROPS["C26"] = dict(features=['fallide'], bounds='Rule bodies of 4 pieces out of 12 (names, blanks, line breaks, pipes, angle brackets, braces, literals, comments); 3 pieces (4 in thorough) inside a call and inside a block in a call.',
   outside='Longer rules; idempotence and spacing of files with syntax errors (only their tokens are shown to stay); spacing in texts over several lines, where the formatter may leave things as they are.',
   runs=[
    R("fe_format",[4,0],reach=[1,2,3]), R("fe_format",[3,1],reach=[1,2,3]), R("fe_format",[3,2],reach=[1,2,3]), R("fe_format",[4,1],reach=[1,2,3],tier=TH), R("fe_format",[4,2],reach=[1,2,3],tier=TH),
])
PROPS["C27"] = dict(features=['fallide'], bounds='Grammars with two tokens and two rules whose names, patterns, parameters and bodies are chosen so that a name may have several definitions or none; calls of rules and built-ins with up to three arguments; every offset within every name.',
   outside='References in AST blocks (shown total in C24, not compared); larger grammars.',
   runs=[
    R("fn_refs",[0,1],reach=[1,2]), R("fn_refs",[0,2],reach=[1,2]), R("fn_refs",[1,1],reach=[1,2]), R("fn_refs",[0,4],reach=[1,2],tier=TH), R("fn_refs",[1,3],reach=[1,2],tier=TH),
])
PROPS["C28"] = dict(features=['fallide'], bounds='The grammars of C27, and operator rules with every attribute, up to three parts and one or two alternatives; asked on a fresh file and after other questions.',
   outside='Larger grammars; diagnostics of AST blocks.',
   runs=[
    R("fn_diag",[0,1],reach=[1,2,3]), R("fn_diag",[1,1],reach=[1,2,3]), R("fn_diag",[2,2],reach=[1,2,3]), R("fn_diag",[0,4],reach=[1,2,3],tier=TH), R("fn_diag",[1,3],reach=[1,2,3],tier=TH), R("fn_diag",[2,3],reach=[1,2,3],tier=TH),
])
PROPS["C29"] = dict(features=['fallide'], bounds='Rule bodies of 3 pieces out of 11, 2 pieces in front of another alternative and inside a call (one more in thorough); every offset and every selection.',
   outside='Longer rules; files with syntax errors (shown total in C24); whether a rule extracted from one with parameters still resolves.',
   runs=[
    R("fa_swap",[3,0],reach=[1,2]), R("fa_swap",[2,1],reach=[1,2]),
    R("fa_extract",[3,0],reach=[1,2,3,4,5]), R("fa_extract",[2,1],reach=[1,2,3,4,5]),R("fa_extract",[2,2],reach=[1,2,4,5]),
    R("fa_swap",[4,0],reach=[1,2],tier=TH), R("fa_swap",[3,1],reach=[1,2],tier=TH),
    R("fa_extract",[4,0],reach=[1,2,3,4,5],tier=TH), R("fa_extract",[3,1],reach=[1,2,3,4,5],tier=TH),R("fa_extract",[3,2],reach=[1,2,4,5],tier=TH),
])
PROPS["C31"] = dict(features=['rustide'], bounds='Texts of 3 pieces (4 in thorough) out of 10 to 17 tokens: at the top level, in a function body, after a structure name, in a use declaration and inside an impl in a module; every offset and every selection of at most one character; structures and enums with up to two lifetimes and two type parameters, with and without bounds.',
   outside='Longer texts; what the highlighting of the Rust editor colours (it colours nothing).',
   runs=[
    R("re_views",[3,0],reach=[1,2]), R("re_views",[3,1],reach=[1]), R("re_views",[3,2],reach=[1]), R("re_views",[3,3],reach=[1]), R("re_views",[2,4],reach=[1]),
    R("re_offset",[2,0],reach=[1]), R("re_offset",[2,1],reach=[1,2]), R("re_offset",[2,4],reach=[1]),
    R("re_expand",[2,1],reach=[1,2]), R("re_expand",[2,0],reach=[2]),
    R("re_actions",[2,0]), R("re_actions",[2,2],reach=[1]), R("re_actions",[3,3],reach=[1,2]),
    R("re_impl",[],reach=[1]),
    R("re_views",[4,0],reach=[1,2],tier=TH), R("re_views",[4,1],reach=[1],tier=TH), R("re_views",[4,2],reach=[1],tier=TH), R("re_views",[4,3],reach=[1],tier=TH), R("re_views",[3,4],reach=[1],tier=TH),
    R("re_offset",[3,0],reach=[1],tier=TH), R("re_offset",[3,1],reach=[1,2],tier=TH), R("re_expand",[3,1],reach=[1,2],tier=TH),
    R("re_actions",[3,0],reach=[1],tier=TH), R("re_actions",[3,2],reach=[1],tier=TH), R("re_actions",[4,3],reach=[1,2],tier=TH),
])
PROPS["C32"] = dict(features=['rustide'], bounds='Up to 2 files of 2 items out of 6 (7 definitions of every kind, names that differ in case only), queries of up to 2 letters out of a, b, B and #.',
   outside='Names outside ASCII, more than 512 results (the search stops there), files on disk and the threads that watch them.',
   runs=[ R("re_index",[3,1,1],reach=[1,2]), R("re_index",[2,1,2],reach=[1,2]), R("re_index",[1,2,2],reach=[1,2]), R("re_index",[2,2,2],reach=[1,2],tier=TH), R("re_index",[3,1,3],reach=[1,2],tier=TH), ])
PROPS["C33"] = dict(features=['idx'], bounds='File systems over 3 or 4 names (files with two contents, directories, directories whose name looks like a source file), any sequence of 2 states (3 in thorough), a change reported at any path after each.',
   outside='Symbolic links, files the process may not read, changes made while a directory is read; the threads and system calls that watch for changes: the index is told of them directly.',
   runs=[ R("ix_changes",[0,3],reach=[1,2]), R("ix_changes",[1,2],reach=[1,2]), R("ix_changes",[2,2],reach=[1,2]), R("ix_changes",[1,3],reach=[1,2],tier=TH), R("ix_changes",[2,3],reach=[1,2],tier=TH), ])
PROPS["C34"] = dict(features=['vsc'], bounds='Edits made of up to 2 operations (3 in thorough) on distinct nodes of all trees of construction scripts of 4 steps (5 in thorough), and of one replaced substring; up to 2 replacements (3 in thorough) received for texts of up to 3 ASCII characters (4 in thorough).',
   outside='The JavaScript side (neon and the TypeScript sources), which is not installed here: stand-ins with the same signatures, never run, let the crate compile. Texts in which an editor counts characters differently from bytes.',
   runs=[
    R("c34_tree_edit",[4,2,1],reach=[1,2,3]), R("c34_substring",[4],reach=[1,3]), R("c34_received",[4,3],reach=[1,2]), R("c34_bad",[],reach=[1,2]),
    R("c34_tree_edit",[5,3,1],reach=[1,2,3],tier=TH), R("c34_substring",[6],reach=[1,3],tier=TH), R("c34_received",[5,3],reach=[1,2],tier=TH),
])
PROPS["C35"] = dict(features=['fall'], bounds='Every sequence of 4 pieces (5 in thorough) out of 8 to 15 tokens of the grammar language: at top level, after the name of a rule, in a rule body, in a call, in a tokenizer, in attributes, in AST definitions and in the methods of a node.',
   outside='Longer files; the shape of the error nodes in files that are not well formed (that they have one is shown).',
   runs=[ R("fall_tree",[4,0],reach=[1,2]), R("fall_tree",[4,1],reach=[1,2]), R("fall_tree",[3,2],reach=[1,2]), R("fall_tree",[4,3],reach=[1,2]), R("fall_tree",[4,4],reach=[1,2]), R("fall_tree",[4,5],reach=[1,2]), R("fall_tree",[4,6],reach=[1,2]), R("fall_tree",[3,7],reach=[1,2]), R("fall_tree",[3,8],reach=[1,2]),
     R("fall_tree",[5,0],reach=[1,2],tier=TH), R("fall_tree",[5,1],reach=[1,2],tier=TH), R("fall_tree",[4,2],reach=[1,2],tier=TH), R("fall_tree",[5,3],reach=[1,2],tier=TH), R("fall_tree",[5,5],reach=[1,2],tier=TH), R("fall_tree",[5,6],reach=[1,2],tier=TH), R("fall_tree",[4,7],reach=[1,2],tier=TH), R("fall_tree",[5,8],reach=[1,2],tier=TH),
   ])
_items = [[k, t, f] for k, t, f in [(0,0,0),(0,1,1),(1,1,1),(2,0,0),(2,0,1),(3,0,0),(3,1,1),(4,0,0),(4,1,1),(5,0,0),(6,0,0),(7,0,0),(7,1,1),(8,1,1),(9,1,1),(10,0,0),(11,0,0),(11,1,1),(12,0,0),(13,1,1),(14,1,1),(15,0,0),(15,0,1),(16,0,0),(16,1,1),(17,0,0)]]
PROPS["C36"] = dict(features=['rust'], bounds='Items of every kind with their parts in every combination of a list of forms, alone and between two others; types and patterns nested two deep (36 and 28 forms); expressions of 62 forms nested two deep (with 4 to 30 forms of operands at the leaves) as initialisers, statements, conditions and after a statement that a block ends, and one deep in match arms; with blanks between all tokens or with none where none are needed. Thorough: more positions, nested one deeper.',
   outside='What the grammar does not cover: attributes of fields and variants, where clauses of structs, parenthesised bounds, `dyn`, `async`, later editions; an impl for a type that begins with `<`. Names are fixed ones; comments (C22) are not put between the tokens.',
   runs=[ R("rg_type",[2,0,0],reach=[1]), R("rg_type",[2,0,1],reach=[1]), R("rg_type",[1,1,1],reach=[1]), R("rg_type",[2,3,1],reach=[1]), R("rg_pat",[2,0,0],reach=[1]), R("rg_pat",[2,1,1],reach=[1]) ]
   + [ R("rg_item", p, reach=[1]) for p in _items ]
   + [ R("rg_expr",[2,0,0],reach=[1]), R("rg_expr",[1,1,1],reach=[1]), R("rg_expr",[2,2,1],reach=[1]), R("rg_expr",[1,3,0],reach=[1]), R("rg_expr",[1,3,1],reach=[1]), R("rg_expr",[1,4,0,0],reach=[1]), R("rg_expr",[1,5,0,0],reach=[1]),
     R("rg_type",[2,1,0],reach=[1],tier=TH), R("rg_type",[2,2,0],reach=[1],tier=TH), R("rg_expr",[2,0,1],reach=[1],tier=TH), R("rg_expr",[2,1,1],reach=[1],tier=TH), R("rg_expr",[2,2,0],reach=[1],tier=TH), R("rg_expr",[2,3,0],reach=[1],tier=TH), R("rg_expr",[2,3,1],reach=[1],tier=TH), R("rg_expr",[1,4,0,1],reach=[1],tier=TH), R("rg_expr",[1,4,1,0],reach=[1],tier=TH), R("rg_expr",[1,5,0,1],reach=[1],tier=TH), R("rg_expr",[1,5,1,0],reach=[1],tier=TH), R("rg_expr",[2,4,0,0],reach=[1],tier=TH), R("rg_item",[6,0,1],reach=[1],tier=TH), R("rg_item",[10,1,1],reach=[1],tier=TH), R("rg_item",[12,1,0],reach=[1],tier=TH), R("rg_item",[10,1,0],reach=[1],tier=TH), R("rg_item",[2,1,1],reach=[1],tier=TH), R("rg_type",[3,0,0],reach=[1],tier=TH) ])
