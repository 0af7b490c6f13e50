//! The neon 0.7 interface over a small simulated JavaScript engine.
//!
//! One simulated task is the JavaScript thread; its values live in a heap of that thread. A
//! scheduled task performs on a simulated thread of its own and completes on the JavaScript thread
//! when that turns its event loop (`engine::turn`), in an order the scheduler chooses.
pub mod engine;

use engine::{Slot, Val};
use std::any::Any;
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};

pub mod prelude {
    pub use crate::borrow::{Borrow, BorrowMut, Ref, RefMut};
    pub use crate::context::{
        CallContext, Context, FunctionContext, Lock, MethodContext, ModuleContext, TaskContext,
    };
    pub use crate::handle::{Handle, Managed};
    pub use crate::object::{Class, Object, PropertyKey};
    pub use crate::result::{JsResult, JsResultExt, NeonResult};
    pub use crate::task::Task;
    pub use crate::types::*;
    pub use crate::{class_definition, declare_types, register_module};
}

pub mod result {
    use super::*;
    /// A JavaScript exception is pending.
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct Throw;
    impl fmt::Display for Throw {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("JavaScript Error")
        }
    }
    impl std::error::Error for Throw {}
    pub type NeonResult<T> = Result<T, Throw>;
    pub type JsResult<'b, T> = NeonResult<handle::Handle<'b, T>>;
    pub trait JsResultExt<'a, V: types::Value> {
        fn or_throw<'b, C: context::Context<'b>>(self, cx: &mut C) -> JsResult<'a, V>;
    }
    impl<'a, F: types::Value, T: types::Value> JsResultExt<'a, T>
        for Result<handle::Handle<'a, T>, handle::DowncastError<F, T>>
    {
        fn or_throw<'b, C: context::Context<'b>>(self, cx: &mut C) -> JsResult<'a, T> {
            match self {
                Ok(v) => Ok(v),
                Err(e) => cx.throw_type_error(e.to_string()),
            }
        }
    }
}

pub mod handle {
    use super::*;
    pub trait Managed: Copy {
        fn to_raw(self) -> Val;
        fn from_raw(v: Val) -> Self;
    }
    #[derive(Clone, Copy)]
    pub struct Handle<'a, T: Managed> {
        value: T,
        scope: PhantomData<&'a T>,
    }
    impl<'a, T: Managed> fmt::Debug for Handle<'a, T> {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "Handle({:?})", self.value.to_raw())
        }
    }
    impl<'a, T: Managed> Handle<'a, T> {
        pub fn new_internal(value: T) -> Self {
            Handle { value, scope: PhantomData }
        }
    }
    impl<'a, T: Managed> Deref for Handle<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.value
        }
    }
    impl<'a, T: Managed> DerefMut for Handle<'a, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.value
        }
    }
    pub struct DowncastError<F, T>(PhantomData<(F, T)>);
    impl<F: types::Value, T: types::Value> fmt::Display for DowncastError<F, T> {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "failed to downcast {} to {}", F::type_name(), T::type_name())
        }
    }
    impl<F: types::Value, T: types::Value> fmt::Debug for DowncastError<F, T> {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            fmt::Display::fmt(self, f)
        }
    }
    impl<F: types::Value, T: types::Value> std::error::Error for DowncastError<F, T> {}
    pub type DowncastResult<'a, F, T> = Result<Handle<'a, T>, DowncastError<F, T>>;
    impl<'a, T: types::Value> Handle<'a, T> {
        pub fn upcast(&self) -> Handle<'a, types::JsValue> {
            Handle::new_internal(types::JsValue::from_raw(self.value.to_raw()))
        }
        pub fn is_a<U: types::Value>(&self) -> bool {
            U::is(self.value.to_raw())
        }
        pub fn downcast<U: types::Value>(&self) -> DowncastResult<'a, T, U> {
            if U::is(self.value.to_raw()) {
                Ok(Handle::new_internal(U::from_raw(self.value.to_raw())))
            } else {
                Err(DowncastError(PhantomData))
            }
        }
        pub fn downcast_or_throw<'b, U: types::Value, C: context::Context<'b>>(
            &self,
            cx: &mut C,
        ) -> result::JsResult<'a, U> {
            use result::JsResultExt;
            self.downcast().or_throw(cx)
        }
    }
}

pub mod types {
    use super::context::Context;
    use super::handle::{Handle, Managed};
    use super::result::{JsResult, NeonResult};
    use super::*;

    pub trait Value: Managed {
        fn type_name() -> String;
        fn is(v: Val) -> bool;
        fn to_string<'a, C: Context<'a>>(self, _cx: &mut C) -> JsResult<'a, JsString> {
            Ok(handle_of(engine::alloc(Slot::Str(engine::describe(self.to_raw())))))
        }
        fn as_value<'a, C: Context<'a>>(self, _cx: &mut C) -> Handle<'a, JsValue> {
            handle_of(self.to_raw())
        }
    }
    pub(crate) fn handle_of<'a, T: Managed>(v: Val) -> Handle<'a, T> {
        Handle::new_internal(T::from_raw(v))
    }
    macro_rules! js_types {
        ($($name:ident $label:expr, |$s:ident| $is:expr;)*) => {$(
            #[derive(Clone, Copy, Debug)]
            pub struct $name(Val);
            impl Managed for $name {
                fn to_raw(self) -> Val { self.0 }
                fn from_raw(v: Val) -> Self { $name(v) }
            }
            impl Value for $name {
                fn type_name() -> String { $label.to_string() }
                fn is(v: Val) -> bool { engine::with(v, |$s| $is) }
            }
            impl object::This for $name {}
        )*};
    }
    js_types! {
        JsValue "any", |_s| true;
        JsUndefined "undefined", |s| matches!(s, Slot::Undefined);
        JsNull "null", |s| matches!(s, Slot::Null);
        JsBoolean "boolean", |s| matches!(s, Slot::Bool(_));
        JsNumber "number", |s| matches!(s, Slot::Num(_));
        JsString "string", |s| matches!(s, Slot::Str(_));
        JsObject "object", |s| s.is_object();
        JsArray "Array", |s| matches!(s, Slot::Array(_));
        JsFunction "function", |s| matches!(s, Slot::Function(_));
        JsArrayBuffer "ArrayBuffer", |s| matches!(s, Slot::Buffer { .. });
        JsBuffer "Buffer", |s| matches!(s, Slot::Buffer { .. });
        JsError "Error", |s| matches!(s, Slot::Error(_));
    }
    impl object::Object for JsObject {}
    impl object::Object for JsArray {}
    impl object::Object for JsFunction {}
    impl object::Object for JsArrayBuffer {}
    impl object::Object for JsBuffer {}
    impl object::Object for JsError {}

    impl JsUndefined {
        pub fn new<'a>() -> Handle<'a, JsUndefined> {
            handle_of(engine::alloc(Slot::Undefined))
        }
    }
    impl JsNull {
        pub fn new<'a>() -> Handle<'a, JsNull> {
            handle_of(engine::alloc(Slot::Null))
        }
    }
    impl JsBoolean {
        pub fn new<'a, C: Context<'a>>(_: &mut C, b: bool) -> Handle<'a, JsBoolean> {
            handle_of(engine::alloc(Slot::Bool(b)))
        }
        pub fn value(self) -> bool {
            engine::with(self.0, |s| matches!(s, Slot::Bool(true)))
        }
    }
    impl JsNumber {
        pub fn new<'a, C: Context<'a>, T: Into<f64>>(_: &mut C, n: T) -> Handle<'a, JsNumber> {
            handle_of(engine::alloc(Slot::Num(n.into())))
        }
        pub fn value(self) -> f64 {
            engine::with(self.0, |s| if let Slot::Num(n) = s { *n } else { f64::NAN })
        }
    }
    impl JsString {
        pub fn new<'a, C: Context<'a>, S: AsRef<str>>(_: &mut C, s: S) -> Handle<'a, JsString> {
            handle_of(engine::alloc(Slot::Str(s.as_ref().to_string())))
        }
        pub fn try_new<'a, C: Context<'a>, S: AsRef<str>>(
            cx: &mut C,
            s: S,
        ) -> Result<Handle<'a, JsString>, result::Throw> {
            Ok(JsString::new(cx, s))
        }
        pub fn value(self) -> String {
            engine::with(self.0, |s| if let Slot::Str(t) = s { t.clone() } else { String::new() })
        }
        /// bytes of its UTF-8 form
        pub fn size(self) -> isize {
            engine::with(self.0, |s| if let Slot::Str(t) = s { t.len() as isize } else { 0 })
        }
    }
    impl JsObject {
        pub fn new<'a, C: Context<'a>>(_: &mut C) -> Handle<'a, JsObject> {
            handle_of(engine::alloc(Slot::Object(vec![])))
        }
    }
    impl JsArray {
        pub fn new<'a, C: Context<'a>>(_: &mut C, len: u32) -> Handle<'a, JsArray> {
            let hole = engine::alloc(Slot::Undefined);
            handle_of(engine::alloc(Slot::Array(vec![hole; len as usize])))
        }
        pub fn len(self) -> u32 {
            engine::with(self.0, |s| if let Slot::Array(v) = s { v.len() as u32 } else { 0 })
        }
        pub fn is_empty(self) -> bool {
            self.len() == 0
        }
        pub fn to_vec<'a, C: Context<'a>>(self, cx: &mut C) -> NeonResult<Vec<Handle<'a, JsValue>>> {
            use object::Object;
            (0..self.len()).map(|i| self.get(cx, i)).collect()
        }
    }
    impl JsArrayBuffer {
        pub fn new<'a, C: Context<'a>>(_: &mut C, bytes: u32) -> JsResult<'a, JsArrayBuffer> {
            Ok(handle_of(engine::alloc(engine::buffer_slot(bytes as usize))))
        }
    }
    /// The bytes of an ArrayBuffer.
    #[derive(Clone, Copy)]
    pub struct BinaryData<'a> {
        ptr: *mut u8,
        len: usize,
        scope: PhantomData<&'a ()>,
    }
    pub trait BinaryViewType: Sized {}
    macro_rules! views { ($($t:ty)*) => {$(impl BinaryViewType for $t {})*} }
    views!(u8 i8 u16 i16 u32 i32 u64 i64 f32 f64);
    impl<'a> BinaryData<'a> {
        pub fn as_slice<T: BinaryViewType>(self) -> &'a [T] {
            unsafe { std::slice::from_raw_parts(self.ptr as *const T, self.len / std::mem::size_of::<T>()) }
        }
        pub fn as_mut_slice<T: BinaryViewType>(self) -> &'a mut [T] {
            unsafe { std::slice::from_raw_parts_mut(self.ptr as *mut T, self.len / std::mem::size_of::<T>()) }
        }
        pub fn len(self) -> usize {
            self.len
        }
    }
    fn binary<'a>(v: Val) -> BinaryData<'a> {
        let (ptr, len) = engine::buffer_ptr(v);
        BinaryData { ptr, len, scope: PhantomData }
    }
    macro_rules! buffers { ($($t:ident)*) => {$(
        impl borrow::Borrow for $t {
            type Target = BinaryData<'static>;
            fn try_borrow<'b>(&self, _: &'b context::Lock<'b>) -> Result<borrow::Ref<'b, BinaryData<'static>>, borrow::LoanError> {
                Ok(borrow::Ref::owned(Box::new(binary(self.0))))
            }
        }
        impl borrow::BorrowMut for $t {
            fn try_borrow_mut<'b>(&mut self, _: &'b context::Lock<'b>) -> Result<borrow::RefMut<'b, BinaryData<'static>>, borrow::LoanError> {
                Ok(borrow::RefMut::owned(Box::new(binary(self.0))))
            }
        }
    )*} }
    buffers!(JsArrayBuffer JsBuffer);
    impl JsFunction {
        pub fn call<'a, C: Context<'a>, T: Managed + 'a, A: Managed + 'a, I: IntoIterator<Item = Handle<'a, A>>>(
            self,
            _cx: &mut C,
            _this: Handle<'a, T>,
            args: I,
        ) -> JsResult<'a, JsValue> {
            let args: Vec<Val> = args.into_iter().map(|a| a.to_raw()).collect();
            engine::call(self.0, args).map(handle_of)
        }
    }
    impl JsError {
        pub fn error<'a, C: Context<'a>, S: AsRef<str>>(_: &mut C, s: S) -> NeonResult<Handle<'a, JsError>> {
            Ok(handle_of(engine::alloc(Slot::Error(s.as_ref().to_string()))))
        }
        pub fn type_error<'a, C: Context<'a>, S: AsRef<str>>(cx: &mut C, s: S) -> NeonResult<Handle<'a, JsError>> {
            JsError::error(cx, s)
        }
    }
}

pub mod object {
    use super::context::Context;
    use super::handle::{Handle, Managed};
    use super::result::NeonResult;
    use super::types::*;
    use super::*;
    pub trait This: Managed {}
    pub trait PropertyKey {
        fn key(&self) -> engine::Key;
    }
    impl PropertyKey for u32 {
        fn key(&self) -> engine::Key {
            engine::Key::Index(*self)
        }
    }
    impl<'a> PropertyKey for &'a str {
        fn key(&self) -> engine::Key {
            engine::Key::Name(self.to_string())
        }
    }
    impl<'a, T: Value> PropertyKey for Handle<'a, T> {
        fn key(&self) -> engine::Key {
            engine::with(self.to_raw(), |s| match s {
                Slot::Num(n) => engine::Key::Index(*n as u32),
                Slot::Str(t) => engine::Key::Name(t.clone()),
                _ => engine::Key::Name("?".into()),
            })
        }
    }
    pub trait Object: Value {
        fn get<'a, C: Context<'a>, K: PropertyKey>(self, _: &mut C, key: K) -> NeonResult<Handle<'a, JsValue>> {
            Ok(types::handle_of(engine::get(self.to_raw(), key.key())))
        }
        fn get_own_property_names<'a, C: Context<'a>>(self, _: &mut C) -> result::JsResult<'a, JsArray> {
            let v = engine::names(self.to_raw()).into_iter().map(|n| engine::alloc(Slot::Str(n))).collect();
            Ok(types::handle_of(engine::alloc(Slot::Array(v))))
        }
        fn set<'a, C: Context<'a>, K: PropertyKey, W: Value>(
            self,
            _: &mut C,
            key: K,
            val: Handle<W>,
        ) -> NeonResult<bool> {
            Ok(engine::set(self.to_raw(), key.key(), val.to_raw()))
        }
    }
    pub trait Class: Value + Any {
        type Internals: 'static;
        fn class_name() -> &'static str;
        fn define(d: &mut engine::ClassDef);
    }
    pub use crate::types::Value;
}

pub mod borrow {
    use super::context::Lock;
    use super::*;
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub enum LoanError {
        Mutating,
        Frozen,
    }
    impl fmt::Display for LoanError {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str(match self {
                LoanError::Mutating => "outstanding mutable loan exists",
                LoanError::Frozen => "object is frozen",
            })
        }
    }
    impl std::error::Error for LoanError {}
    /// `target` points into what `keep` keeps alive.
    pub struct Ref<'b, T: ?Sized> {
        target: *const T,
        _keep: Box<dyn Any>,
        lock: PhantomData<&'b ()>,
    }
    pub struct RefMut<'b, T: ?Sized> {
        target: *mut T,
        _keep: Box<dyn Any>,
        lock: PhantomData<&'b ()>,
    }
    impl<'b, T> Ref<'b, T> {
        pub fn new(target: *const T, keep: Box<dyn Any>) -> Self {
            Ref { target, _keep: keep, lock: PhantomData }
        }
        pub(crate) fn owned(v: Box<T>) -> Self {
            // a few bytes for each buffer view; a case is one short process
            Ref { target: Box::into_raw(v), _keep: Box::new(()), lock: PhantomData }
        }
    }
    impl<'b, T> RefMut<'b, T> {
        pub fn new(target: *mut T, keep: Box<dyn Any>) -> Self {
            RefMut { target, _keep: keep, lock: PhantomData }
        }
        pub(crate) fn owned(v: Box<T>) -> Self {
            RefMut { target: Box::into_raw(v), _keep: Box::new(()), lock: PhantomData }
        }
    }
    impl<'b, T> Deref for Ref<'b, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.target }
        }
    }
    impl<'b, T> Deref for RefMut<'b, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.target }
        }
    }
    impl<'b, T> DerefMut for RefMut<'b, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.target }
        }
    }
    pub trait Borrow {
        type Target;
        fn try_borrow<'b>(&self, lock: &'b Lock<'b>) -> Result<Ref<'b, Self::Target>, LoanError>;
        fn borrow<'b>(&self, lock: &'b Lock<'b>) -> Ref<'b, Self::Target> {
            match self.try_borrow(lock) {
                Ok(r) => r,
                Err(e) => panic!("{}", e),
            }
        }
    }
    pub trait BorrowMut: Borrow {
        fn try_borrow_mut<'b>(&mut self, lock: &'b Lock<'b>) -> Result<RefMut<'b, Self::Target>, LoanError>;
        fn borrow_mut<'b>(&mut self, lock: &'b Lock<'b>) -> RefMut<'b, Self::Target> {
            match self.try_borrow_mut(lock) {
                Ok(r) => r,
                Err(e) => panic!("{}", e),
            }
        }
    }
}

pub mod context {
    use super::borrow::{Borrow, BorrowMut, Ref, RefMut};
    use super::handle::{Handle, Managed};
    use super::object::{Class, This};
    use super::result::{JsResult, NeonResult, Throw};
    use super::types::*;
    use super::*;
    pub struct Lock<'a>(PhantomData<&'a ()>);
    pub trait Context<'a>: Sized {
        fn lock(&self) -> Lock<'_> {
            Lock(PhantomData)
        }
        fn borrow<'c, V: Managed + Borrow, T, F>(&self, v: &'c Handle<V>, f: F) -> T
        where
            F: for<'b> FnOnce(Ref<'b, V::Target>) -> T,
        {
            f(Borrow::borrow(&**v, &Lock(PhantomData)))
        }
        fn borrow_mut<'c, V: Managed + BorrowMut, T, F>(&self, v: &'c mut Handle<V>, f: F) -> T
        where
            F: for<'b> FnOnce(RefMut<'b, V::Target>) -> T,
        {
            f(BorrowMut::borrow_mut(&mut **v, &Lock(PhantomData)))
        }
        fn boolean(&mut self, b: bool) -> Handle<'a, JsBoolean> {
            JsBoolean::new(self, b)
        }
        fn number<T: Into<f64>>(&mut self, x: T) -> Handle<'a, JsNumber> {
            JsNumber::new(self, x)
        }
        fn string<S: AsRef<str>>(&mut self, s: S) -> Handle<'a, JsString> {
            JsString::new(self, s)
        }
        fn null(&mut self) -> Handle<'a, JsNull> {
            JsNull::new()
        }
        fn undefined(&mut self) -> Handle<'a, JsUndefined> {
            JsUndefined::new()
        }
        fn empty_object(&mut self) -> Handle<'a, JsObject> {
            JsObject::new(self)
        }
        fn empty_array(&mut self) -> Handle<'a, JsArray> {
            JsArray::new(self, 0)
        }
        fn array_buffer(&mut self, size: u32) -> NeonResult<Handle<'a, JsArrayBuffer>> {
            JsArrayBuffer::new(self, size)
        }
        fn error<S: AsRef<str>>(&mut self, msg: S) -> JsResult<'a, JsError> {
            JsError::error(self, msg)
        }
        fn type_error<S: AsRef<str>>(&mut self, msg: S) -> JsResult<'a, JsError> {
            JsError::type_error(self, msg)
        }
        fn throw<'b, T: Value, U>(&mut self, v: Handle<'b, T>) -> NeonResult<U> {
            engine::throw(&engine::describe(v.to_raw()));
            Err(Throw)
        }
        fn throw_error<S: AsRef<str>, T>(&mut self, msg: S) -> NeonResult<T> {
            engine::throw(msg.as_ref());
            Err(Throw)
        }
        fn throw_type_error<S: AsRef<str>, T>(&mut self, msg: S) -> NeonResult<T> {
            engine::throw(msg.as_ref());
            Err(Throw)
        }
        fn throw_range_error<S: AsRef<str>, T>(&mut self, msg: S) -> NeonResult<T> {
            engine::throw(msg.as_ref());
            Err(Throw)
        }
    }
    pub struct CallContext<'a, T: This> {
        this: Val,
        args: Vec<Val>,
        kind: PhantomData<&'a T>,
    }
    pub type FunctionContext<'a> = CallContext<'a, JsObject>;
    pub type MethodContext<'a, T> = CallContext<'a, T>;
    impl<'a, T: This> Context<'a> for CallContext<'a, T> {}
    impl<'a, T: This> CallContext<'a, T> {
        pub fn new_internal(this: Val, args: Vec<Val>) -> Self {
            CallContext { this, args, kind: PhantomData }
        }
        pub fn this(&mut self) -> Handle<'a, T> {
            types::handle_of(self.this)
        }
        pub fn len(&self) -> i32 {
            self.args.len() as i32
        }
        pub fn argument_opt(&mut self, i: i32) -> Option<Handle<'a, JsValue>> {
            self.args.get(i as usize).map(|v| types::handle_of(*v))
        }
        pub fn argument<V: Value>(&mut self, i: i32) -> JsResult<'a, V> {
            match self.argument_opt(i) {
                Some(v) => v.downcast_or_throw(self),
                None => self.throw_type_error("not enough arguments"),
            }
        }
    }
    pub struct TaskContext<'a>(PhantomData<&'a ()>);
    impl<'a> TaskContext<'a> {
        pub fn new_internal() -> Self {
            TaskContext(PhantomData)
        }
    }
    impl<'a> Context<'a> for TaskContext<'a> {}
    pub struct ModuleContext<'a>(PhantomData<&'a ()>);
    impl<'a> Context<'a> for ModuleContext<'a> {}
    impl<'a> ModuleContext<'a> {
        pub fn new_internal() -> Self {
            ModuleContext(PhantomData)
        }
        pub fn export_function<T: Value + 'static>(
            &mut self,
            key: &str,
            f: for<'b> fn(FunctionContext<'b>) -> JsResult<'b, T>,
        ) -> NeonResult<()> {
            engine::export_function(key, Box::new(move |this, args| f(CallContext::new_internal(this, args)).map(|h| h.to_raw())));
            Ok(())
        }
        pub fn export_class<T: Class>(&mut self, key: &str) -> NeonResult<()> {
            engine::export_class::<T>(key);
            Ok(())
        }
        pub fn export_value<T: Value>(&mut self, _key: &str, _val: Handle<T>) -> NeonResult<()> {
            Ok(())
        }
    }
}

pub mod task {
    use super::context::TaskContext;
    use super::handle::{Handle, Managed};
    use super::result::JsResult;
    use super::types::*;
    /// Work for another thread, its result given to a callback on the JavaScript thread.
    pub trait Task: Send + Sized + 'static {
        type Output: Send + 'static;
        type Error: Send + 'static;
        type JsEvent: Value;
        fn perform(&self) -> Result<Self::Output, Self::Error>;
        fn complete<'a>(
            self,
            cx: TaskContext<'a>,
            result: Result<Self::Output, Self::Error>,
        ) -> JsResult<'a, Self::JsEvent>;
        fn schedule(self, callback: Handle<JsFunction>) {
            crate::engine::schedule(self, callback.to_raw())
        }
    }
}

#[macro_export]
macro_rules! class_definition {
    ($d:ident $cls:ident $typ:ty;) => {};
    ($d:ident $cls:ident $typ:ty; init($cx:pat) $body:block $($rest:tt)*) => {
        {
            fn init<'a>($cx: $crate::context::CallContext<'a, $crate::types::JsUndefined>) -> $crate::result::NeonResult<$typ> $body
            $d.init(|this, args| {
                init($crate::context::CallContext::new_internal(this, args)).map(|v| Box::new(v) as Box<dyn std::any::Any>)
            });
        }
        $crate::class_definition!($d $cls $typ; $($rest)*);
    };
    ($d:ident $cls:ident $typ:ty; method $name:ident($cx:pat) $body:block $($rest:tt)*) => {
        {
            fn method<'a>($cx: $crate::context::CallContext<'a, $cls>) -> $crate::result::JsResult<'a, $crate::types::JsValue> $body
            $d.method(stringify!($name), |this, args| {
                method($crate::context::CallContext::new_internal(this, args)).map(|h| $crate::handle::Managed::to_raw(*h))
            });
        }
        $crate::class_definition!($d $cls $typ; $($rest)*);
    };
}
#[macro_export]
macro_rules! declare_types {
    () => {};
    ($(#[$attr:meta])* pub class $cls:ident as $name:ident for $typ:ty { $($body:tt)* } $($rest:tt)*) => {
        #[derive(Clone, Copy)]
        $(#[$attr])*
        pub struct $cls($crate::engine::Val);
        $crate::declare_types!(@impl $cls $name $typ { $($body)* });
        $crate::declare_types!($($rest)*);
    };
    ($(#[$attr:meta])* class $cls:ident as $name:ident for $typ:ty { $($body:tt)* } $($rest:tt)*) => {
        #[derive(Clone, Copy)]
        $(#[$attr])*
        struct $cls($crate::engine::Val);
        $crate::declare_types!(@impl $cls $name $typ { $($body)* });
        $crate::declare_types!($($rest)*);
    };
    ($(#[$attr:meta])* pub class $cls:ident for $typ:ty { $($body:tt)* } $($rest:tt)*) => {
        $crate::declare_types!($(#[$attr])* pub class $cls as $cls for $typ { $($body)* } $($rest)*);
    };
    (@impl $cls:ident $name:ident $typ:ty { $($body:tt)* }) => {
        impl $crate::handle::Managed for $cls {
            fn to_raw(self) -> $crate::engine::Val { self.0 }
            fn from_raw(v: $crate::engine::Val) -> Self { $cls(v) }
        }
        impl $crate::types::Value for $cls {
            fn type_name() -> String { stringify!($name).to_string() }
            fn is(v: $crate::engine::Val) -> bool { $crate::engine::is_instance::<$cls>(v) }
        }
        impl $crate::object::This for $cls {}
        impl $crate::object::Object for $cls {}
        impl $crate::object::Class for $cls {
            type Internals = $typ;
            fn class_name() -> &'static str { stringify!($name) }
            #[allow(unused_mut)]
            fn define(d: &mut $crate::engine::ClassDef) {
                $crate::class_definition!(d $cls $typ; $($body)*);
            }
        }
        impl $crate::borrow::Borrow for $cls {
            type Target = $typ;
            fn try_borrow<'b>(&self, _: &'b $crate::context::Lock<'b>) -> Result<$crate::borrow::Ref<'b, $typ>, $crate::borrow::LoanError> {
                let (p, keep) = $crate::engine::loan::<$typ>(self.0, false)?;
                Ok($crate::borrow::Ref::new(p, keep))
            }
        }
        impl $crate::borrow::BorrowMut for $cls {
            fn try_borrow_mut<'b>(&mut self, _: &'b $crate::context::Lock<'b>) -> Result<$crate::borrow::RefMut<'b, $typ>, $crate::borrow::LoanError> {
                let (p, keep) = $crate::engine::loan::<$typ>(self.0, true)?;
                Ok($crate::borrow::RefMut::new(p, keep))
            }
        }
    };
}
#[macro_export]
macro_rules! register_module {
    ($m:pat, $init:block) => {
        /// What node runs when the addon is loaded.
        pub fn neon_module() -> $crate::result::NeonResult<()> {
            fn init<'a>($m: $crate::context::ModuleContext<'a>) -> $crate::result::NeonResult<()> $init
            init($crate::context::ModuleContext::new_internal())
        }
    };
}
