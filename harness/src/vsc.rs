//! C34: edits on their way to and from the text editor (/repo/code/generic_backend, compiled from its sources).
use crate::rt::*;
use crate::tree::{file, nodes, script, shadow, text_for};
use crate::entries;
use fall_tree::*;
use generic_backend::{from_vs_edits, to_vs_edits, VsEdit};
use serde::de::{self, value::MapDeserializer, IntoDeserializer};
use serde::{forward_to_deserialize_any, ser, Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

/// One replacement as the text editor sees it.
type Rep = (u32, u32, String);

// What goes over the boundary is the serialised form: numbers and strings in order of the fields.
#[derive(Debug)]
struct Bad;
impl fmt::Display for Bad { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("bad") } }
impl std::error::Error for Bad {}
impl ser::Error for Bad { fn custom<T: fmt::Display>(_: T) -> Bad { Bad } }
impl de::Error for Bad { fn custom<T: fmt::Display>(_: T) -> Bad { Bad } }
#[derive(Default)]
struct Out { nums: Vec<u32>, strs: Vec<String>, field: u8 }
struct Into_<'a>(&'a mut Out);
macro_rules! no { ($($f:ident($t:ty))*) => { $( fn $f(self, _: $t) -> Result<(), Bad> { Err(Bad) } )* } }
impl<'a> Serializer for Into_<'a> {
    type Ok = (); type Error = Bad;
    type SerializeSeq = Self; type SerializeTuple = Self; type SerializeStruct = Self;
    type SerializeTupleStruct = ser::Impossible<(), Bad>; type SerializeTupleVariant = ser::Impossible<(), Bad>;
    type SerializeMap = ser::Impossible<(), Bad>; type SerializeStructVariant = ser::Impossible<(), Bad>;
    no! { serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64) serialize_u8(u8) serialize_u16(u16) serialize_u64(u64) serialize_f32(f32) serialize_f64(f64) serialize_char(char) serialize_bytes(&[u8]) serialize_unit_struct(&'static str) }
    fn serialize_u32(self, v: u32) -> Result<(), Bad> { if self.0.field != b'd' { return Err(Bad) } self.0.nums.push(v); Ok(()) }
    fn serialize_str(self, v: &str) -> Result<(), Bad> { if self.0.field != b'i' { return Err(Bad) } self.0.strs.push(v.to_string()); Ok(()) }
    fn serialize_none(self) -> Result<(), Bad> { Err(Bad) }
    fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<(), Bad> { Err(Bad) }
    fn serialize_unit(self) -> Result<(), Bad> { Err(Bad) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), Bad> { Err(Bad) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<(), Bad> { v.serialize(self) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Bad> { Err(Bad) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self, Bad> { Ok(self) }
    fn serialize_tuple(self, _: usize) -> Result<Self, Bad> { Ok(self) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, Bad> { Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Bad> { Err(Bad) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Bad> { Err(Bad) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Bad> { Err(Bad) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Bad> { Err(Bad) }
}
impl<'a> ser::SerializeSeq for Into_<'a> { type Ok = (); type Error = Bad;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Bad> { v.serialize(Into_(self.0)) }
    fn end(self) -> Result<(), Bad> { Ok(()) } }
impl<'a> ser::SerializeTuple for Into_<'a> { type Ok = (); type Error = Bad;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Bad> { v.serialize(Into_(self.0)) }
    fn end(self) -> Result<(), Bad> { Ok(()) } }
impl<'a> ser::SerializeStruct for Into_<'a> { type Ok = (); type Error = Bad;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Bad> {
        self.0.field = if k == "delete" { b'd' } else if k == "insert" { b'i' } else { b'?' };
        v.serialize(Into_(self.0))
    }
    fn end(self) -> Result<(), Bad> { Ok(()) } }
fn seen(e: &VsEdit) -> Rep {
    let mut o = Out::default();
    assert(e.serialize(Into_(&mut o)).is_ok() && o.nums.len() == 2 && o.strs.len() == 1, 100);
    (o.nums[0], o.nums[1], o.strs.pop().unwrap())
}
enum V { Range(u32, u32), Str(String) }
impl<'de> IntoDeserializer<'de, Bad> for V { type Deserializer = V; fn into_deserializer(self) -> V { self } }
impl<'de> Deserializer<'de> for V {
    type Error = Bad;
    fn deserialize_any<W: de::Visitor<'de>>(self, v: W) -> Result<W::Value, Bad> {
        match self { V::Range(a, b) => v.visit_seq(de::value::SeqDeserializer::new(vec![a, b].into_iter())), V::Str(s) => v.visit_string(s) }
    }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
fn sent(r: &Rep) -> Option<VsEdit> {
    let m = vec![("delete", V::Range(r.0, r.1)), ("insert", V::Str(r.2.clone()))];
    VsEdit::deserialize(MapDeserializer::<_, Bad>::new(m.into_iter())).ok()
}

/// What a text editor does with a list of replacements, all given in offsets of the old text.
fn edited(t: &str, reps: &[Rep], id: u64) -> String {
    let (mut s, mut at) = (String::new(), 0usize);
    for r in reps {
        assert(at <= r.0 as usize && r.0 <= r.1 && r.1 as usize <= t.len(), id);
        s.push_str(&t[at..r.0 as usize]); s.push_str(&r.2); at = r.1 as usize;
    }
    s.push_str(&t[at..]);
    s
}
fn check_sent(t: &str, e: TextEdit, f: Text) {
    let exp = e.apply(f).to_string();
    let vs = to_vs_edits(e);
    let reps: Vec<Rep> = vs.iter().map(seen).collect();
    let got = edited(t, &reps, 1);
    assert(got == exp, 2);
    // and back
    let back = from_vs_edits(f, vs).apply(f).to_string();
    assert(back == exp, 3);
    if reps.len() > 1 { reach(2) }
    if reps.last().map_or(false, |r| r.1 as usize == t.len() && r.0 < r.1) { reach(3) }
    obs_str(&got); obs(reps.len() as u64);
}


entries! {
fn c34_tree_edit() {
    // any operations on any nodes of any tree, as the editor services make their edits
    let s = script(param(0) as usize, param(2) as usize, 1, false, 4);
    let sh = shadow(&s);
    let t = text_for(&sh);
    let f = file(&s, t.clone());
    let ns = nodes(&f, &sh);
    let mut op = vec![0u8; sh.len()];
    for _ in 0..param(1) { let i = choose(sh.len()); assume(op[i] == 0); op[i] = 1 + choose(3) as u8; }
    let mut e = FileEdit::new(&f);
    for i in 0..sh.len() {
        let rep = if i % 2 == 0 { "<>" } else { "" }.to_string();
        match op[i] { 1 => e.delete(ns[i]), 2 => e.replace_with_text(ns[i], rep), 3 => e.insert_text_after(ns[i], rep), _ => () }
    }
    reach(1);
    check_sent(&t, e.into_text_edit(), f.text());
}
fn c34_substring() {
    let s = script(param(0) as usize, 2, 1, false, 4);
    let sh = shadow(&s);
    let t = text_for(&sh);
    let f = file(&s, t.clone());
    let n = t.len();
    let a = choose(n + 1); let b = a + choose(n + 1 - a);
    let mut e = FileEdit::new(&f);
    e.replace_substring(TextRange::from_to(tu(a as u32), tu(b as u32)), "<>".to_string());
    reach(1);
    check_sent(&t, e.into_text_edit(), f.text());
}
fn c34_received() {
    // replacements from the editor, in text order, become the edit that does them; others are refused
    let n = choose(param(0) as usize + 1);
    let t = ascii(n);
    let k = param(1) as usize;
    let mut reps: Vec<Rep> = vec![]; let (mut at, mut ordered) = (0u32, true);
    for i in 0..k {
        let a = choose(n + 1) as u32; let b = a + choose(n + 1 - a as usize) as u32;
        if a < at { ordered = false }
        at = b;
        reps.push((a, b, if choose(2) == 0 { "" } else { ["x", "yz", "w"][i % 3] }.to_string()));
    }
    let buf: TextBuf = t.clone().into();
    let vs: Vec<VsEdit> = reps.iter().map(|r| { let e = sent(r); assert(e.is_some(), 10); e.unwrap() }).collect();
    if ordered {
        reach(1);
        let e = from_vs_edits(buf.as_text(), vs);
        let got = e.apply(buf.as_text()).to_string();
        assert(got == edited(&t, &reps, 11), 12);
        obs(got.len() as u64);
    } else {
        reach(2);
        expect_panic(true);
        let _ = from_vs_edits(buf.as_text(), vs);
        must_not_return(13);
    }
}
fn c34_bad() {
    // a replacement whose range ends before it starts is refused
    let (a, b) = (sym(32) as u32, sym(32) as u32);
    assume(a < 1000 && b < 1000);
    let e = sent(&(a, b, String::new()));
    if a <= b { reach(1) } else { reach(2) }
    assert(e.is_some() == (a <= b), 1);
    if let Some(e) = e { let r = seen(&e); assert(r.0 == a && r.1 == b && r.2.is_empty(), 2) }
    obs((a <= b) as u64);
}
}
