fixed("C01", "0995700", "the empty range at an offset compared as incomparable with itself (partial_cmp answered None)")
fixed("C10", "bc4cbe7", "parsing panicked when the start rule did not match")
fixed("C17", "bc4cbe7", "a text the start rule rejects panicked instead of becoming an error node")
fixed("C18", "804b5e2", "lookahead over replaceable, injected and operator-table nodes left their events in the tree")
fixed("C18", "adc0bdd", "an abandoned alternative or a lookahead changed the previous-node condition and pending replacements")
fixed("C13", "ffc2f64", "incremental parsing looked up cached nodes past the last token (panic) and during lookahead")
fixed("C17", "2d2d0f3", "an empty text the start rule rejects got no error node")
fixed("C10", "2d2d0f3", "an empty text the start rule rejects got no error node")
fixed("C22", "02183b9", "'-x as T' cast inside the negation; 'a <<= 1' and 'a >>= 1' parsed as two comparisons; 'a & &b' and 'a | |x| x' did not parse")
fixed("C22", "7eaa011", "'a as T + b' took '+ b' for a bound of the type")
fixed("C21", "942ba61", "a raw string literal with more than thirty hashes crashed the lexer")
fixed("C22", "942ba61", "a raw string literal with more than thirty hashes crashed the lexer")
fixed("C13", "f3bda4e", "a rule after a cached one saw a different previous node (prev_is) on re-parsing than on a fresh parse")
fixed("C24", "729f4e3", "highlighting, diagnostics and go-to-definition panicked on AST definitions without a name and on operator rules without a body")
fixed("C26", "ecd2d3a", "reformatting put two spaces around an empty alternative, and more when repeated")
fixed("C28", "e2b072d", "duplicate rules went unreported in a grammar where nothing refers to a rule or token")
fixed("C29", "d99d31e", "extracting a rule's whole body left a rule without a block; extracting next to a name glued the names together")
fixed("C29", "7198251", "looking for alternatives to swap printed to standard output")
fixed("C30", "0979d16", "an argument of a rule could not mention its caller's parameters, and a rule had room for ten arguments only (panic or wrong tree)")
fixed("C18", "0979d16", "calls passed arguments by position in one shared array, so a nested call changed its caller's arguments")
fixed("C13", "e3ca15a", "a cached rule was reused in a different context or after a different node than it was parsed in")
fixed("C13", "35eb3d0", "a cached rule was reused although what it had looked at beyond its end had changed")
fixed("C30", "4f9059d", "an AST name that begins or ends with an underscore crashed the generator")
fixed("C30", "b0db593", "the generator crashed on, or silently miscompiled, misplaced commits, wrong argument counts, attributes on private rules, repeated accessors, unknown node types and more than 32 contexts")
fixed("C01", "42ff6a3", "a serialised text range that ends before it starts was read as a range")
fixed("C31", "a1dddb8", "the Rust editor crashed at the first offsets of a file (breadcrumbs, 'let ' completion, print expansion), and print expansion cut characters in two")
fixed("C31", "865e5fb", "'Add braces' turned `use a as b;` into `use {a} as b;` and `use super;` into `use {super};`")
fixed("C31", "3d49cd0", "`use a::{self as b};` was a syntax error")
fixed("C32", "c9e3997", "symbol search found only one of the symbols of a file whose names differ in case only or are equal")
fixed("C05", "b1df39e", "a construction sequence with several roots, or none, was accepted")
fixed("C33", "a1798c1", "files of a directory that was removed, renamed or replaced stayed in the file index")
fixed("C36", "571ba2a", "a block that began a statement or a match arm ended expressions elsewhere in it: `a += {} + 1;` parsed as `(a += {}) + 1`; `{} ..`, `{}[0]` and `{} as T` after a block statement continued it")
fixed("C36", "5d6cd59", "a closure in a condition took the body (`if |x| a {}`), `..` in `for x in .. {}` was refused, and the contexts of conditions and type paths leaked into brackets, match arms and array lengths")
fixed("C36", "11ffd2a", "`&'l: loop {}`: the borrow took the label")
fixed("C36", "59d8a3f", "angle brackets were balanced regardless of brackets nested in them (`A<[U; a < b]>`)")
fixed("C36", "d14ec02", "`fn f() where T: C;` left the rest of the file an error: bounds and where clauses did not end before a semicolon")
fixed("C36", "90e8915", "`struct S(pub (A, B));`: the visibility took the parentheses of the type")
