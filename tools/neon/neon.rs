//! A stand-in for neon: calls the exported functions without Node.
use std::cell::RefCell;
#[derive(Clone, Copy)]
pub enum Js { Str(&'static str), Bool(bool), Num(f64) }
pub fn s(x: &str) -> Js { Js::Str(Box::leak(x.to_string().into_boxed_str())) }
thread_local! {
    pub static THROWN: RefCell<Option<String>> = RefCell::new(None);
    pub static EXPORTS: RefCell<Vec<(String, Box<dyn Fn(Vec<Js>) -> Result<String, String>>)>> = RefCell::new(Vec::new());
}
pub fn call(init: fn(prelude::ModuleContext) -> prelude::NeonResult<()>, name: &str, args: &[Js]) -> Result<String, String> {
    EXPORTS.with(|e| e.borrow_mut().clear());
    assert!(init(prelude::ModuleContext::make()).is_ok());
    EXPORTS.with(|e| (e.borrow().iter().find(|x| x.0 == name).expect("not exported").1)(args.to_vec()))
}
pub mod prelude {
    use super::*;
    use std::marker::PhantomData;
    use std::ops::Deref;
    pub struct Throw(());
    pub type NeonResult<T> = Result<T, Throw>;
    pub type JsResult<'b, T> = NeonResult<Handle<'b, T>>;
    #[derive(Clone, Copy)]
    pub struct Handle<'a, T: 'a>(T, PhantomData<&'a T>);
    impl<'a, T> Deref for Handle<'a, T> { type Target = T; fn deref(&self) -> &T { &self.0 } }
    pub trait Value: Copy { fn of(v: Js) -> Option<Self>; fn text(self) -> String; }
    #[derive(Clone, Copy)] pub struct JsString(&'static str);
    #[derive(Clone, Copy)] pub struct JsBoolean(bool);
    impl Value for JsString { fn of(v: Js) -> Option<Self> { if let Js::Str(x) = v { Some(JsString(x)) } else { None } } fn text(self) -> String { self.0.to_string() } }
    impl Value for JsBoolean { fn of(v: Js) -> Option<Self> { if let Js::Bool(x) = v { Some(JsBoolean(x)) } else { None } } fn text(self) -> String { self.0.to_string() } }
    impl JsString { pub fn value(self) -> String { self.0.to_string() } }
    impl JsBoolean { pub fn value(self) -> bool { self.0 } }
    fn throw<T>(m: &str) -> NeonResult<T> { THROWN.with(|t| *t.borrow_mut() = Some(m.to_string())); Err(Throw(())) }
    pub trait Context<'a>: Sized {
        fn throw_error<S: AsRef<str>, T>(&mut self, m: S) -> NeonResult<T> { throw(m.as_ref()) }
        fn throw_type_error<S: AsRef<str>, T>(&mut self, m: S) -> NeonResult<T> { throw(m.as_ref()) }
        fn throw_range_error<S: AsRef<str>, T>(&mut self, m: S) -> NeonResult<T> { throw(m.as_ref()) }
        fn string<S: AsRef<str>>(&mut self, x: S) -> Handle<'a, JsString> { Handle(JsString(Box::leak(x.as_ref().to_string().into_boxed_str())), PhantomData) }
        fn boolean(&mut self, b: bool) -> Handle<'a, JsBoolean> { Handle(JsBoolean(b), PhantomData) }
    }
    pub struct FunctionContext<'a>(Vec<Js>, PhantomData<&'a ()>);
    impl<'a> Context<'a> for FunctionContext<'a> {}
    impl<'a> FunctionContext<'a> {
        pub fn len(&self) -> i32 { self.0.len() as i32 }
        pub fn argument<V: Value>(&mut self, i: i32) -> JsResult<'a, V> {
            match self.0.get(i as usize) { None => throw("not enough arguments"), Some(v) => match V::of(*v) { Some(v) => Ok(Handle(v, PhantomData)), None => throw("failed downcast") } }
        }
    }
    pub struct ModuleContext<'a>(PhantomData<&'a ()>);
    impl<'a> Context<'a> for ModuleContext<'a> {}
    impl<'a> ModuleContext<'a> {
        pub fn make() -> Self { ModuleContext(PhantomData) }
        pub fn export_function<T: Value + 'static>(&mut self, key: &str, f: fn(FunctionContext) -> JsResult<T>) -> NeonResult<()> {
            EXPORTS.with(|e| e.borrow_mut().push((key.to_string(), Box::new(move |a| match f(FunctionContext(a, PhantomData)) {
                Ok(h) => Ok(h.0.text()),
                Err(_) => Err(THROWN.with(|t| t.borrow_mut().take()).unwrap()),
            }))));
            Ok(())
        }
    }
    pub use crate::register_module;
}
#[macro_export]
macro_rules! register_module {
    ($module:pat, $init:block) => {
        pub fn neon_register_module($module: $crate::prelude::ModuleContext) -> $crate::prelude::NeonResult<()> { $init }
    };
    (|$module:pat| $init:block) => { register_module!($module, $init); };
}
