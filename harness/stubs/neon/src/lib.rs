//! Stand-in for neon (not installed here): the types the glue in /repo/code/generic_backend names. Nothing of it is ever run.
#![allow(unused)]
pub mod mem {
    use std::marker::PhantomData;
    pub struct Handle<'a, T>(PhantomData<(&'a (), T)>);
    impl<'a, T> Clone for Handle<'a, T> { fn clone(&self) -> Self { Handle(PhantomData) } }
    impl<'a, T> Copy for Handle<'a, T> {}
    impl<'a, T> Handle<'a, T> {
        pub fn check<U>(self) -> crate::vm::JsResult<'a, U> { unimplemented!() }
        pub fn upcast(self) -> Handle<'a, crate::js::JsValue> { unimplemented!() }
    }
    impl<'a, T> std::ops::Deref for Handle<'a, T> { type Target = T; fn deref(&self) -> &T { unimplemented!() } }
}
pub mod scope {
    use std::marker::PhantomData;
    pub struct RootScope<'a>(PhantomData<&'a ()>);
    pub trait Scope<'a> {}
    impl<'a> Scope<'a> for RootScope<'a> {}
}
pub mod js {
    use crate::{mem::Handle, scope::RootScope, vm::JsResult};
    pub struct JsValue; pub struct JsString; pub struct JsObject; pub struct JsNull;
    pub struct JsFunction<C = JsObject>(std::marker::PhantomData<C>);
    impl JsString { pub fn value(&self) -> String { unimplemented!() } }
    impl<C> JsFunction<C> {
        pub fn construct<'b, 'c, S, A: 'c, I: IntoIterator<Item = Handle<'c, A>>>(&self, scope: &mut S, args: I) -> JsResult<'b, C> { unimplemented!() }
    }
    pub mod class {
        use crate::{mem::Handle, scope::RootScope, vm::JsResult};
        pub struct JsClass<C>(std::marker::PhantomData<C>);
        impl<C> JsClass<C> { pub fn constructor<'b, S>(&self, scope: &mut S) -> JsResult<'b, super::JsFunction<C>> { unimplemented!() } }
        pub trait Class: Sized {
            type Internals;
            fn class<'b, S>(scope: &mut S) -> JsResult<'b, JsClass<Self>> { unimplemented!() }
        }
    }
}
pub mod vm {
    use crate::{js::{class::Class, JsObject, JsValue}, mem::Handle, scope::RootScope};
    #[derive(Debug)] pub struct Throw;
    pub type VmResult<T> = Result<T, Throw>;
    pub type JsResult<'b, T> = VmResult<Handle<'b, T>>;
    pub trait This {}
    impl This for JsObject {}
    pub struct Arguments<'a, T = JsObject>(std::marker::PhantomData<&'a T>);
    impl<'a, T> Arguments<'a, T> {
        pub fn require<'b, S>(&self, scope: &mut S, idx: i32) -> JsResult<'b, JsValue> { unimplemented!() }
        pub fn len(&self) -> i32 { unimplemented!() }
    }
    pub struct Call<'a, T = JsObject> { pub scope: &'a mut RootScope<'a>, pub arguments: Arguments<'a, T> }
    pub trait Lock: Sized {
        type Internals;
        fn grab<F: FnOnce(Self::Internals) -> R + Send, R: Send>(self, f: F) -> R { unimplemented!() }
    }
    impl<'a, 'b, C: Class> Lock for &'a mut Handle<'b, C> where C::Internals: 'a { type Internals = &'a mut C::Internals; }
}
