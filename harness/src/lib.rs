//! Property harnesses. Each module's `entries!` block defines the entry points the symbolic executor runs.
pub mod rt;
pub type Entry = (&'static str, fn());
#[macro_export]
macro_rules! entries {
    ($(fn $name:ident() $body:block)*) => {
        $( pub fn $name() $body )*
        #[cfg(not(feature = "native"))]
        pub mod export { $( #[no_mangle] pub extern "C" fn $name() { super::$name() } )* }
        pub const TABLE: &[$crate::Entry] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}
#[cfg(feature = "text")] pub mod text;
#[cfg(feature = "tree")] pub mod tree;
#[cfg(feature = "parse")] pub mod parse;
#[cfg(feature = "parse")] pub mod langs;
#[cfg(feature = "json")] pub mod json;
#[cfg(feature = "bnf")] pub mod bnf;
#[cfg(feature = "fall")] pub mod falls;
#[cfg(feature = "rust")] pub mod rust;
#[cfg(feature = "rust")] pub mod rustg;
#[cfg(feature = "fallide")] pub mod falled;
#[cfg(feature = "fallide")] pub mod falln;
#[cfg(feature = "fallide")] pub mod falla;
#[cfg(feature = "edit")] pub mod edit;
#[cfg(feature = "gen")] pub mod gen;
#[cfg(feature = "rustide")] pub mod rusted;
#[cfg(feature = "idx")] pub mod index;
#[cfg(feature = "vsc")] pub mod vsc;
pub fn tables() -> Vec<&'static [Entry]> {
    #[allow(unused_mut)]
    let mut v: Vec<&'static [Entry]> = vec![];
    #[cfg(feature = "text")] v.push(text::TABLE);
    #[cfg(feature = "tree")] v.push(tree::TABLE);
    #[cfg(feature = "parse")] v.push(parse::TABLE);
    #[cfg(feature = "json")] v.push(json::TABLE);
    #[cfg(feature = "bnf")] v.push(bnf::TABLE);
    #[cfg(feature = "fall")] v.push(falls::TABLE);
    #[cfg(feature = "rust")] v.push(rust::TABLE);
    #[cfg(feature = "rust")] v.push(rustg::TABLE);
    #[cfg(feature = "edit")] v.push(edit::TABLE);
    #[cfg(feature = "fallide")] v.push(falled::TABLE);
    #[cfg(feature = "fallide")] v.push(falln::TABLE);
    #[cfg(feature = "fallide")] v.push(falla::TABLE);
    #[cfg(feature = "gen")] v.push(gen::TABLE);
    #[cfg(feature = "rustide")] v.push(rusted::TABLE);
    #[cfg(feature = "idx")] v.push(index::TABLE);
    #[cfg(feature = "vsc")] v.push(vsc::TABLE);
    v
}
