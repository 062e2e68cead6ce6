//! Stand-in for neon-serde, never run.
#![allow(unused)]
use neon::{js::JsValue, mem::Handle, vm::VmResult};
pub fn to_value<'j, S, T: serde::Serialize + ?Sized>(scope: &mut S, value: &T) -> VmResult<Handle<'j, JsValue>> { unimplemented!() }
pub fn from_value<'j, S, T: serde::de::DeserializeOwned>(scope: &mut S, value: Handle<'j, JsValue>) -> VmResult<T> { unimplemented!() }
