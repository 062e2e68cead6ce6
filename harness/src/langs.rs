//! Shared by the harnesses of the shipped languages.
use crate::rt::*;
use fall_tree::{tu, File, Language, Node, NodeType, TextEditBuilder, TextRange, TextUnit, ERROR};
pub fn u(x: TextUnit) -> u32 { x.into() }
pub use crate::parse::lossless;
pub type Ev = (u8, NodeType, u32, u32);
pub fn is_leaf(n: Node) -> bool { n.children().next().is_none() && !n.range().is_empty() }
/// Pre-order listing of the tree; whitespace-like leaves only if `ws`.
pub fn flat(n: Node, ws: bool, out: &mut Vec<Ev>) {
    if is_leaf(n) {
        if ws || !n.file().language().node_type_info(n.ty()).whitespace_like { out.push((0, n.ty(), u(n.range().start()), u(n.range().end()))) }
        return;
    }
    out.push((1, n.ty(), 0, 0)); for c in n.children() { flat(c, ws, out) } out.push((2, ERROR, 0, 0));
}
pub fn flat_all(f: &File) -> Vec<Ev> { let mut v = vec![]; flat(f.root(), true, &mut v); v }
pub fn has_error(f: &File) -> bool { flat_all(f).iter().any(|e| e.0 != 2 && e.1 == ERROR) }
pub fn obs_tree(f: &File) { let v = flat_all(f); obs(v.len() as u64); let mut h = 1u64; for e in &v { h = h.rotate_left(7) ^ (e.0 as u64 | (e.1 .0 as u64) << 2 | (e.2 as u64) << 20 | (e.3 as u64) << 40) } obs(h) }
/// `n` pieces out of `alpha`, with their indices
pub fn pieces(alpha: &[&str], n: usize) -> (String, Vec<usize>) {
    let mut s = String::new(); let mut v = vec![];
    for _ in 0..n { let k = choose(alpha.len()); s.push_str(alpha[k]); v.push(k) }
    (s, v)
}
/// Any text: parsing returns, and the tree is the text.
pub fn any_text(l: &Language, text: String) -> File {
    let f = l.parse(text.clone());
    lossless(&f, &text);
    obs_tree(&f);
    f
}
/// Edit between piece boundaries: delete pieces [i, i+d) and insert up to `maxins` others there; the incrementally
/// produced tree must be the tree of the new text.
pub fn piece_edit(l: &Language, alpha: &[&str], prefix: &str, suffix: &str, n: usize, maxdel: usize, maxins: usize) {
    let (mid, v) = pieces(alpha, n);
    let text = format!("{}{}{}", prefix, mid, suffix);
    let mut cuts = vec![prefix.len()]; for &k in &v { let p = cuts[cuts.len() - 1] + alpha[k].len(); cuts.push(p) }
    let i = choose(n + 1);
    let d = choose(if n - i < maxdel { n - i } else { maxdel } + 1);
    let (ins, _) = pieces(alpha, choose(maxins + 1));
    let f = l.parse(text.clone());
    let mut b = TextEditBuilder::new(f.text());
    if !ins.is_empty() { b.insert(tu(cuts[i] as u32), ins) }
    if d > 0 { b.delete(TextRange::from_to(tu(cuts[i] as u32), tu(cuts[i + d] as u32))) }
    check_edit(l, &f, b.build(), true);
}
pub fn check_edit(l: &Language, f: &File, e: fall_tree::TextEdit, once: bool) {
    let new = e.apply(f.text()).as_text().to_string();
    let g = f.edit(&e);
    lossless(&g, &new);
    let h = l.parse(new.clone());
    let (x, y) = (flat_all(&g), flat_all(&h));
    if x != y { print(&format!("{:?} {:?} -> {:?}\nincremental {:?}\nfresh       {:?}", f.text().to_string(), e.ops, new, x, y)) }
    assert(x == y, 1);
    if once { if g.metrics().get("relexed region").map_or(false, |m| (m as usize) < new.len()) { reach(1) } }
    if g.metrics().get("parsing ticks") < h.metrics().get("parsing ticks") { reach(2) }
    obs_str(&new); obs_tree(&g);
}
