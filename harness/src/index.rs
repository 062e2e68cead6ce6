//! The file index: what it holds after being told of changes, over every small file system.
use crate::rt::*;
use indxr::{FileIndex, IndexableFileSet};
use std::path::{Path, PathBuf};
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Dir, File(u8) }
/// The file system: paths below the root, parents before their children.
type Fs = Vec<(String, Kind)>;
/// In the symbolic build the C library's file functions read this; natively it is made real.
#[cfg(not(feature = "native"))]
mod model {
    use super::*;
    use std::os::raw::{c_char, c_int, c_void};
    pub static mut FS: Option<Fs> = None;
    static mut ERRNO: c_int = 0;
    pub fn root() -> PathBuf { PathBuf::from("/s") }
    pub fn set(fs: &Fs) { unsafe { FS = Some(fs.clone()) } }
    pub fn clean() {}
    unsafe fn arg(p: *const c_char) -> String {
        let mut v = vec![]; let mut i = 0;
        loop { let c = *p.add(i) as u8; if c == 0 { break } v.push(c); i += 1 }
        String::from_utf8(v).unwrap()
    }
    /// The number and kind of a file; 0 is the root.
    fn find(p: &str) -> Option<(u64, Kind)> {
        if p == "/s" { return Some((1, Kind::Dir)) }
        let fs = unsafe { FS.as_ref().unwrap() };
        fs.iter().position(|e| p.len() > 3 && p.starts_with("/s/") && e.0 == p[3..]).map(|i| (i as u64 + 2, fs[i].1))
    }
    unsafe fn stat(p: *const c_char, buf: *mut u8) -> c_int {
        match find(&arg(p)) {
            Some((ino, k)) => {
                for i in 0..144 { *buf.add(i) = 0 }
                *(buf.add(0) as *mut u64) = 1; *(buf.add(8) as *mut u64) = ino; *(buf.add(16) as *mut u64) = 1;
                *(buf.add(24) as *mut u32) = if k == Kind::Dir { 0o040755 } else { 0o100644 };
                0
            }
            None => { ERRNO = 2; -1 }
        }
    }
    unsafe extern "C" fn no_statx(_: c_int, _: *const c_char, _: c_int, _: u32, _: *mut c_void) -> c_int { ERRNO = 38; -1 }
    #[no_mangle] unsafe extern "C" fn __errno_location() -> *mut c_int { &mut ERRNO }
    #[no_mangle] unsafe extern "C" fn dlsym(_: *mut c_void, name: *const c_char) -> *mut c_void { if arg(name) == "statx" { no_statx as *mut c_void } else { std::ptr::null_mut() } }
    #[no_mangle] unsafe extern "C" fn stat64(p: *const c_char, buf: *mut u8) -> c_int { stat(p, buf) }
    #[no_mangle] unsafe extern "C" fn lstat64(p: *const c_char, buf: *mut u8) -> c_int { stat(p, buf) }
    struct Dir { entries: Vec<(u64, String, Kind)>, next: usize }
    #[no_mangle] unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
        let p = arg(p);
        match find(&p) {
            Some((_, Kind::Dir)) => {
                let fs = FS.as_ref().unwrap();
                let mut entries = vec![];
                for (i, e) in fs.iter().enumerate() {
                    let full = format!("/s/{}", e.0);
                    let cut = full.rfind('/').unwrap();
                    if full[..cut] == p[..] { entries.push((i as u64 + 2, full[cut + 1..].to_string(), e.1)) }
                }
                Box::into_raw(Box::new(Dir { entries, next: 0 })) as *mut c_void
            }
            Some(_) => { ERRNO = 20; std::ptr::null_mut() }
            None => { ERRNO = 2; std::ptr::null_mut() }
        }
    }
    #[no_mangle] unsafe extern "C" fn readdir64_r(d: *mut c_void, entry: *mut u8, res: *mut *mut u8) -> c_int {
        let d = &mut *(d as *mut Dir);
        if d.next == d.entries.len() { *res = std::ptr::null_mut(); return 0 }
        let (ino, ref name, k) = d.entries[d.next]; d.next += 1;
        *(entry as *mut u64) = ino; *(entry.add(8) as *mut u64) = d.next as u64; *(entry.add(16) as *mut u16) = 280;
        *entry.add(18) = if k == Kind::Dir { 4 } else { 8 };
        for (i, b) in name.bytes().enumerate() { *entry.add(19 + i) = b }
        *entry.add(19 + name.len()) = 0;
        *res = entry; 0
    }
    #[no_mangle] unsafe extern "C" fn closedir(d: *mut c_void) -> c_int { drop(Box::from_raw(d as *mut Dir)); 0 }
    pub fn content(p: &Path) -> Option<u8> { match find(p.to_str().unwrap()) { Some((_, Kind::File(c))) => Some(c), _ => None } }
}
#[cfg(feature = "native")]
mod model {
    use super::*;
    use std::fs;
    pub fn root() -> PathBuf { std::env::temp_dir().join(format!("vh-index-{}-{:?}", std::process::id(), std::thread::current().id()).replace(|c| c == '(' || c == ')', "_")) }
    pub fn set(v: &Fs) {
        clean();
        fs::create_dir(root()).unwrap();
        for (p, k) in v { let p = root().join(p); match *k { Kind::Dir => fs::create_dir(p).unwrap(), Kind::File(c) => fs::write(p, &[c]).unwrap() } }
    }
    pub fn clean() { let _ = fs::remove_dir_all(root()); }
    pub fn content(p: &Path) -> Option<u8> { fs::read(p).ok().and_then(|v| v.first().cloned()) }
}
/// Any file system over these names, with files of two contents; a file with content 0 is not indexed.
fn any_fs(names: &[&str]) -> Fs {
    let mut v: Fs = vec![];
    for n in names {
        let parent = n.rfind('/').map(|i| &n[..i]);
        if let Some(p) = parent { if !v.iter().any(|e| e.0 == p && e.1 == Kind::Dir) { continue } }
        let below = names.iter().any(|m| m.starts_with(n) && m.len() > n.len());
        match choose(if below { 4 } else { 3 }) { 0 => (), 1 => v.push((n.to_string(), Kind::File(1))), 2 => v.push((n.to_string(), Kind::File((v.len() % 2) as u8 * 2))), _ => v.push((n.to_string(), Kind::Dir)) }
    }
    v
}
const NAMES: [&[&str]; 3] = [&["a.rs", "d", "d/b.rs"], &["b", "d.rs", "d.rs/c.rs"], &["d", "d/e.rs", "d/e.rs/f.rs", "da.rs"]];
crate::entries! {
fn ix_changes() {
    let names = NAMES[param(0) as usize];
    let root = model::root();
    let set = IndexableFileSet::new(vec![root.clone()], "rs");
    let index = FileIndex::new_unwatched(set);
    let mut want: Fs = vec![];
    for step in 0..param(1) {
        let fs = any_fs(names);
        model::set(&fs);
        // a change is reported at any path
        let at = if step == 0 { 0 } else { choose(names.len() + 1) };
        let path = if at == 0 { root.clone() } else { root.join(names[at - 1]) };
        index.changed(&path);
        // what was known outside of it, and what is there now
        let under = |p: &str| at == 0 || p == names[at - 1] || p.starts_with(&format!("{}/", names[at - 1]));
        want.retain(|e| !under(&e.0));
        for e in &fs { if let Kind::File(c) = e.1 { if under(&e.0) && e.0.ends_with(".rs") && c != 0 { want.push(e.clone()) } } }
        want.sort_by(|a, b| a.0.cmp(&b.0));
        let mut got: Fs = vec![];
        let mut n = 0;
        index.process_files(&mut |f| { n += 1; got.push((f.path.strip_prefix(&root).unwrap().to_str().unwrap().to_string(), Kind::File(f.value))); false });
        got.sort_by(|a, b| a.0.cmp(&b.0));
        if got != want { print(&format!("{:?} at {:?}: got {:?}, want {:?}", fs, path, got, want)); model::clean() }
        assert(got == want, 1);
        if got.len() > 1 { reach(1) }
        if step > 0 && got.is_empty() { reach(2) }
        obs(n);
        // a reader that has seen enough is asked no more
        let mut seen = 0; index.process_files(&mut |_| { seen += 1; true });
        assert(seen == std::cmp::min(1, want.len()), 2);
    }
    model::clean();
}
}
trait NewUnwatched { fn new_unwatched(set: IndexableFileSet) -> Self; }
impl NewUnwatched for FileIndex<u8> {
    fn new_unwatched(set: IndexableFileSet) -> Self { FileIndex::unwatched(set, Box::new(|p| model::content(p).filter(|&c| c != 0))) }
}
