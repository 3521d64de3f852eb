//! The part of the interface of neon 0.3 that native modules like /repo/ffi use, for type checking
//! them without Node.  Nothing here has a behaviour: the analysis gives the calls their meaning.
#![allow(unused_variables, clippy::all)]

pub mod prelude {
    use std::marker::PhantomData;
    use std::ops::{Deref, DerefMut};

    pub struct Throw(PhantomData<()>);
    pub type NeonResult<T> = Result<T, Throw>;
    pub type JsResult<'b, T> = NeonResult<Handle<'b, T>>;

    pub struct Handle<'a, T: 'a>(T, PhantomData<&'a T>);
    impl<'a, T: Copy> Clone for Handle<'a, T> { fn clone(&self) -> Self { *self } }
    impl<'a, T: Copy> Copy for Handle<'a, T> {}
    impl<'a, T> Deref for Handle<'a, T> { type Target = T; fn deref(&self) -> &T { loop {} } }
    impl<'a, T> DerefMut for Handle<'a, T> { fn deref_mut(&mut self) -> &mut T { loop {} } }
    impl<'a, T: Value> Handle<'a, T> {
        pub fn upcast<U: Value>(&self) -> Handle<'a, U> { loop {} }
        pub fn is_a<U: Value>(&self) -> bool { loop {} }
        pub fn downcast<U: Value>(&self) -> Result<Handle<'a, U>, DowncastError> { loop {} }
        pub fn downcast_or_throw<'b, U: Value, C: Context<'b>>(&self, cx: &mut C) -> NeonResult<Handle<'a, U>> { loop {} }
    }
    pub struct DowncastError(PhantomData<()>);

    pub trait Value: Copy {}
    macro_rules! values { ($($n:ident)*) => { $(#[derive(Clone, Copy)] pub struct $n(PhantomData<()>); impl Value for $n {})* } }
    values! { JsValue JsString JsBoolean JsNumber JsObject JsUndefined JsNull JsFunction JsError }

    impl JsString { pub fn value(self) -> String { loop {} } pub fn size(self) -> isize { loop {} } }
    impl JsBoolean { pub fn value(self) -> bool { loop {} } }
    impl JsNumber { pub fn value(self) -> f64 { loop {} } }

    pub trait Context<'a>: Sized {
        fn throw<T: Value, U>(&mut self, v: Handle<T>) -> NeonResult<U> { loop {} }
        fn throw_error<S: AsRef<str>, T>(&mut self, msg: S) -> NeonResult<T> { loop {} }
        fn throw_type_error<S: AsRef<str>, T>(&mut self, msg: S) -> NeonResult<T> { loop {} }
        fn throw_range_error<S: AsRef<str>, T>(&mut self, msg: S) -> NeonResult<T> { loop {} }
        fn string<S: AsRef<str>>(&mut self, s: S) -> Handle<'a, JsString> { loop {} }
        fn boolean(&mut self, b: bool) -> Handle<'a, JsBoolean> { loop {} }
        fn undefined(&mut self) -> Handle<'a, JsUndefined> { loop {} }
        fn null(&mut self) -> Handle<'a, JsNull> { loop {} }
    }

    pub struct FunctionContext<'a>(PhantomData<&'a ()>);
    impl<'a> Context<'a> for FunctionContext<'a> {}
    impl<'a> FunctionContext<'a> {
        pub fn len(&self) -> i32 { loop {} }
        pub fn argument<V: Value>(&mut self, i: i32) -> JsResult<'a, V> { loop {} }
        pub fn argument_opt(&mut self, i: i32) -> Option<Handle<'a, JsValue>> { loop {} }
    }

    pub struct ModuleContext<'a>(PhantomData<&'a ()>);
    impl<'a> Context<'a> for ModuleContext<'a> {}
    impl<'a> ModuleContext<'a> {
        pub fn export_function<T: Value>(&mut self, key: &str, f: fn(FunctionContext) -> JsResult<T>) -> NeonResult<()> { loop {} }
        pub fn export_value<T: Value>(&mut self, key: &str, val: Handle<T>) -> NeonResult<()> { loop {} }
    }

    pub use crate::register_module;
}

#[macro_export]
macro_rules! register_module {
    ($module:pat, $init:block) => {
        pub fn neon_register_module($module: $crate::prelude::ModuleContext) -> $crate::prelude::NeonResult<()> { $init }
    };
    (|$module:pat| $init:block) => { register_module!($module, $init); };
}
