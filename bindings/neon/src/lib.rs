//! A stand-in for neon 0.7 with the part of its interface that /repo/native/src uses. Values live
//! on a thread-local heap instead of V8's; handles are indices into it. What the bindings can
//! observe follows the documentation of neon 0.7 and of JavaScript: argument counts and types,
//! downcasts, property reads (missing ones are `undefined`, getters may throw), array buffers,
//! borrow checking of class instances, and tasks that run on another thread and come back to
//! the event loop.

use std::any::Any;
use std::cell::RefCell;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};
use std::rc::Rc;

pub mod vm {
    use super::*;

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Raw(pub(crate) u32);

    pub type Native = Rc<dyn Fn(&[Raw]) -> Result<Raw, Raw>>;

    #[derive(Clone)]
    pub enum Prop {
        Value(Raw),
        /// a getter that throws
        Throws,
    }

    pub struct Instance {
        pub class: &'static str,
        pub inner: Box<dyn Any>,
        pub borrows: i32,
    }

    pub enum Slot {
        Undefined,
        Null,
        Bool(bool),
        Num(f64),
        Str(String),
        Array(Vec<Raw>),
        Object(Vec<(String, Prop)>),
        /// 32-bit words keep the bytes aligned, as V8 does
        Buffer(Vec<u32>, usize),
        Instance(Instance),
        Function(Native),
        Error(&'static str, String),
    }

    pub(crate) struct Pending(pub Box<dyn FnOnce()>);

    #[derive(Default)]
    pub struct Vm {
        pub(crate) heap: Vec<Box<Slot>>,
        pub(crate) thrown: Option<Raw>,
        pub(crate) pending: Vec<Pending>,
        /// how many native borrows are alive, for `lock`
        pub(crate) locks: u32,
    }

    thread_local! { pub(crate) static VM: RefCell<Vm> = RefCell::new(Vm::default()); }

    /// Forget everything: called between cases.
    pub fn reset() {
        let old = VM.with(|v| std::mem::take(&mut *v.borrow_mut()));
        drop(old);
    }

    pub fn alloc(s: Slot) -> Raw {
        VM.with(|v| {
            let mut v = v.borrow_mut();
            v.heap.push(Box::new(s));
            Raw(v.heap.len() as u32 - 1)
        })
    }

    pub fn with<R>(r: Raw, f: impl FnOnce(&mut Slot) -> R) -> R {
        let p: *mut Slot = VM.with(|v| &mut *v.borrow_mut().heap[r.0 as usize] as *mut Slot);
        // slots are boxed and never freed before `reset`
        f(unsafe { &mut *p })
    }

    pub fn undefined() -> Raw { alloc(Slot::Undefined) }
    pub fn null() -> Raw { alloc(Slot::Null) }
    pub fn boolean(b: bool) -> Raw { alloc(Slot::Bool(b)) }
    pub fn num(n: f64) -> Raw { alloc(Slot::Num(n)) }
    pub fn string(s: &str) -> Raw { alloc(Slot::Str(s.to_string())) }
    pub fn array(v: Vec<Raw>) -> Raw { alloc(Slot::Array(v)) }
    pub fn object(v: Vec<(&str, Raw)>) -> Raw {
        alloc(Slot::Object(v.into_iter().map(|(k, v)| (k.to_string(), Prop::Value(v))).collect()))
    }
    pub fn object_props(v: Vec<(String, Prop)>) -> Raw { alloc(Slot::Object(v)) }
    pub fn buffer(v: Vec<u32>) -> Raw {
        let n = v.len() * 4;
        alloc(Slot::Buffer(v, n))
    }
    /// an array buffer whose length need not be a whole number of words
    pub fn buffer_bytes(mut v: Vec<u32>, bytes: usize) -> Raw {
        v.resize((bytes + 3) / 4, 0);
        alloc(Slot::Buffer(v, bytes))
    }
    pub fn function(f: impl Fn(&[Raw]) -> Result<Raw, Raw> + 'static) -> Raw {
        alloc(Slot::Function(Rc::new(f)))
    }

    pub(crate) fn throw(kind: &'static str, msg: String) -> crate::result::Throw {
        let e = alloc(Slot::Error(kind, msg));
        VM.with(|v| v.borrow_mut().thrown = Some(e));
        crate::result::Throw(PhantomData)
    }

    pub(crate) fn take_thrown() -> Raw {
        VM.with(|v| v.borrow_mut().thrown.take()).unwrap_or_else(|| {
            alloc(Slot::Error("InternalError", "Throw returned but nothing was thrown".into()))
        })
    }
    pub(crate) fn clear_thrown() {
        VM.with(|v| v.borrow_mut().thrown = None);
    }

    /// (kind, message) of a thrown value
    pub fn error_of(r: Raw) -> (String, String) {
        with(r, |s| match s {
            Slot::Error(k, m) => (k.to_string(), m.clone()),
            _ => ("other".into(), String::new()),
        })
    }

    pub fn get_prop(r: Raw, key: &str) -> Result<Raw, crate::result::Throw> {
        let p = with(r, |s| match s {
            Slot::Object(props) => props.iter().find(|p| p.0 == key).map(|p| p.1.clone()),
            Slot::Array(v) => {
                if key == "length" {
                    let n = v.len();
                    Some(Prop::Value(num(n as f64)))
                } else {
                    key.parse::<usize>().ok().and_then(|i| v.get(i).copied()).map(Prop::Value)
                }
            }
            _ => None,
        });
        match p {
            Some(Prop::Value(v)) => Ok(v),
            Some(Prop::Throws) => Err(throw("Error", format!("getter {} threw", key))),
            None => Ok(undefined()),
        }
    }

    pub fn set_prop(r: Raw, key: &str, val: Raw) {
        with(r, |s| match s {
            Slot::Object(props) => match props.iter_mut().find(|p| p.0 == key) {
                Some(p) => p.1 = Prop::Value(val),
                None => props.push((key.to_string(), Prop::Value(val))),
            },
            Slot::Array(v) => {
                if let Ok(i) = key.parse::<usize>() {
                    while v.len() <= i {
                        v.push(undefined());
                    }
                    v[i] = val;
                }
            }
            _ => (),
        })
    }

    /// Run what tasks left on the event loop, until nothing is left.
    pub fn run_event_loop() {
        loop {
            let next = VM.with(|v| {
                let mut v = v.borrow_mut();
                if v.pending.is_empty() { None } else { Some(v.pending.remove(0)) }
            });
            match next {
                Some(Pending(f)) => f(),
                None => return,
            }
        }
    }

    pub fn call(f: Raw, args: &[Raw]) -> Result<Raw, Raw> {
        let g = with(f, |s| match s {
            Slot::Function(g) => Some(g.clone()),
            _ => None,
        });
        match g {
            Some(g) => g(args),
            None => Err(alloc(Slot::Error("TypeError", "not a function".into()))),
        }
    }
}

use vm::{Raw, Slot};

pub mod result {
    use super::*;
    use std::fmt;

    #[derive(Debug)]
    pub struct Throw(pub(crate) PhantomData<*mut ()>);
    impl fmt::Display for Throw {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("JavaScript Error")
        }
    }
    impl std::error::Error for Throw {}

    pub type NeonResult<T> = Result<T, Throw>;
    pub type JsResult<'b, T> = NeonResult<Handle<'b, T>>;

    pub trait JsResultExt<'a, V: Value> {
        fn or_throw<'b, C: Context<'b>>(self, cx: &mut C) -> JsResult<'a, V>;
    }
    impl<'a, F: Value, T: Value> JsResultExt<'a, T> for Result<Handle<'a, T>, handle::DowncastError<F, T>> {
        fn or_throw<'b, C: Context<'b>>(self, cx: &mut C) -> JsResult<'a, T> {
            match self {
                Ok(v) => Ok(v),
                Err(e) => cx.throw_type_error(e.to_string()),
            }
        }
    }
    use crate::context::Context;
    use crate::handle::Handle;
    use crate::types::Value;
}

pub mod handle {
    use super::*;
    use crate::types::Value;
    use std::fmt;

    pub trait Managed: Copy {
        fn to_raw(self) -> Raw;
        fn from_raw(r: Raw) -> Self;
    }

    pub struct Handle<'a, T: Managed> {
        value: T,
        phantom: PhantomData<&'a T>,
    }
    impl<'a, T: Managed> Clone for Handle<'a, T> {
        fn clone(&self) -> Self { *self }
    }
    impl<'a, T: Managed> Copy for Handle<'a, T> {}
    impl<'a, T: Managed> Handle<'a, T> {
        pub(crate) fn new(value: T) -> Self { Handle { value, phantom: PhantomData } }
        pub fn from_raw(r: Raw) -> Self { Self::new(T::from_raw(r)) }
        pub fn raw(&self) -> Raw { self.value.to_raw() }
    }
    impl<'a, T: Managed> Deref for Handle<'a, T> {
        type Target = T;
        fn deref(&self) -> &T { &self.value }
    }
    impl<'a, T: Managed> DerefMut for Handle<'a, T> {
        fn deref_mut(&mut self) -> &mut T { &mut self.value }
    }

    pub trait SuperType<T: Value>: Value {}

    pub struct DowncastError<F: Value, T: Value> {
        phantom: PhantomData<(F, T)>,
    }
    impl<F: Value, T: Value> fmt::Debug for DowncastError<F, T> {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "DowncastError({} -> {})", F::name(), T::name())
        }
    }
    impl<F: Value, T: Value> fmt::Display for DowncastError<F, T> {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "failed to downcast {} to {}", F::name(), T::name())
        }
    }
    impl<F: Value, T: Value> std::error::Error for DowncastError<F, T> {}
    pub type DowncastResult<'a, F, T> = Result<Handle<'a, T>, DowncastError<F, T>>;

    impl<'a, F: Value> Handle<'a, F> {
        pub fn upcast<U: SuperType<F>>(&self) -> Handle<'a, U> { Handle::from_raw(self.raw()) }
        pub fn is_a<U: Value>(&self) -> bool { U::is_typeof(self.raw()) }
        pub fn downcast<U: Value>(&self) -> DowncastResult<'a, F, U> {
            if U::is_typeof(self.raw()) {
                Ok(Handle::from_raw(self.raw()))
            } else {
                Err(DowncastError { phantom: PhantomData })
            }
        }
        pub fn downcast_or_throw<'b, U: Value, C: crate::context::Context<'b>>(&self, cx: &mut C) -> crate::result::JsResult<'a, U> {
            use crate::result::JsResultExt;
            self.downcast().or_throw(cx)
        }
    }
}

pub mod types {
    use super::*;
    use crate::context::{CallContext, Context, Lock, TaskContext};
    use crate::handle::{Handle, Managed, SuperType};
    use crate::object::Object;
    use crate::result::{JsResult, NeonResult};

    pub trait Value: Managed {
        fn is_typeof(r: Raw) -> bool;
        fn name() -> String;
    }

    macro_rules! value {
        ($n:ident, $text:expr, $pat:pat) => {
            #[derive(Clone, Copy, Debug)]
            pub struct $n(pub(crate) Raw);
            impl Managed for $n {
                fn to_raw(self) -> Raw { self.0 }
                fn from_raw(r: Raw) -> Self { $n(r) }
            }
            impl Value for $n {
                fn is_typeof(r: Raw) -> bool { vm::with(r, |s| matches!(s, $pat)) }
                fn name() -> String { $text.to_string() }
            }
        };
    }
    value!(JsValue, "any", _);
    value!(JsUndefined, "undefined", Slot::Undefined);
    value!(JsNull, "null", Slot::Null);
    value!(JsBoolean, "boolean", Slot::Bool(_));
    value!(JsNumber, "number", Slot::Num(_));
    value!(JsString, "string", Slot::Str(_));
    value!(JsObject, "object", Slot::Object(_) | Slot::Array(_) | Slot::Buffer(..) | Slot::Instance(_) | Slot::Function(_) | Slot::Error(..));
    value!(JsArray, "Array", Slot::Array(_));
    value!(JsArrayBuffer, "ArrayBuffer", Slot::Buffer(..));
    value!(JsError, "Error", Slot::Error(..));
    #[derive(Clone, Copy, Debug)]
    pub struct JsFunction<T = JsObject>(pub(crate) Raw, PhantomData<T>);
    impl<T: Copy> Managed for JsFunction<T> {
        fn to_raw(self) -> Raw { self.0 }
        fn from_raw(r: Raw) -> Self { JsFunction(r, PhantomData) }
    }
    impl<T: Copy> Value for JsFunction<T> {
        fn is_typeof(r: Raw) -> bool { vm::with(r, |s| matches!(s, Slot::Function(_))) }
        fn name() -> String { "function".into() }
    }

    impl<T: Value> SuperType<T> for JsValue {}
    impl<T: Object> SuperType<T> for JsObject {}
    impl Object for JsObject {}
    impl Object for JsArray {}
    impl Object for JsArrayBuffer {}
    impl Object for JsError {}
    impl Object for JsFunction {}

    impl JsUndefined {
        pub fn new<'a>() -> Handle<'a, JsUndefined> { Handle::from_raw(vm::undefined()) }
    }
    impl JsNull {
        pub fn new<'a>() -> Handle<'a, JsNull> { Handle::from_raw(vm::null()) }
    }
    impl JsBoolean {
        pub fn new<'a, C: Context<'a>>(_: &mut C, b: bool) -> Handle<'a, JsBoolean> { Handle::from_raw(vm::boolean(b)) }
        pub fn value(self) -> bool { vm::with(self.0, |s| matches!(s, Slot::Bool(true))) }
    }
    impl JsNumber {
        pub fn new<'a, C: Context<'a>, T: Into<f64>>(_: &mut C, x: T) -> Handle<'a, JsNumber> { Handle::from_raw(vm::num(x.into())) }
        pub fn value(self) -> f64 {
            vm::with(self.0, |s| if let Slot::Num(n) = s { *n } else { f64::NAN })
        }
    }
    impl JsString {
        pub fn new<'a, C: Context<'a>, S: AsRef<str>>(_: &mut C, s: S) -> Handle<'a, JsString> { Handle::from_raw(vm::string(s.as_ref())) }
        /// the length in UTF-8, as neon has it
        pub fn size(self) -> isize {
            vm::with(self.0, |s| if let Slot::Str(s) = s { s.len() as isize } else { 0 })
        }
        pub fn try_new<'a, C: Context<'a>, S: AsRef<str>>(cx: &mut C, s: S) -> Result<Handle<'a, JsString>, String> { Ok(JsString::new(cx, s)) }
        pub fn value(self) -> String {
            vm::with(self.0, |s| if let Slot::Str(s) = s { s.clone() } else { String::new() })
        }
    }
    impl JsObject {
        pub fn new<'a, C: Context<'a>>(_: &mut C) -> Handle<'a, JsObject> { Handle::from_raw(vm::object_props(vec![])) }
    }
    impl JsError {
        pub fn error<'a, C: Context<'a>, S: AsRef<str>>(_: &mut C, msg: S) -> JsResult<'a, JsError> {
            Ok(Handle::from_raw(vm::alloc(Slot::Error("Error", msg.as_ref().to_string()))))
        }
        pub fn type_error<'a, C: Context<'a>, S: AsRef<str>>(_: &mut C, msg: S) -> JsResult<'a, JsError> {
            Ok(Handle::from_raw(vm::alloc(Slot::Error("TypeError", msg.as_ref().to_string()))))
        }
        pub fn range_error<'a, C: Context<'a>, S: AsRef<str>>(_: &mut C, msg: S) -> JsResult<'a, JsError> {
            Ok(Handle::from_raw(vm::alloc(Slot::Error("RangeError", msg.as_ref().to_string()))))
        }
    }
    impl JsArray {
        pub fn new<'a, C: Context<'a>>(_: &mut C, len: u32) -> Handle<'a, JsArray> {
            Handle::from_raw(vm::array((0..len).map(|_| vm::undefined()).collect()))
        }
        pub fn len(self) -> u32 {
            vm::with(self.0, |s| if let Slot::Array(v) = s { v.len() as u32 } else { 0 })
        }
        pub fn is_empty(self) -> bool { self.len() == 0 }
        pub fn to_vec<'a, C: Context<'a>>(self, _: &mut C) -> NeonResult<Vec<Handle<'a, JsValue>>> {
            Ok(vm::with(self.0, |s| if let Slot::Array(v) = s { v.clone() } else { vec![] }).into_iter().map(Handle::from_raw).collect())
        }
    }
    impl JsFunction {
        pub fn call<'a, C: Context<'a>>(self, _: &mut C, args: &[Raw]) -> JsResult<'a, JsValue> {
            match vm::call(self.0, args) {
                Ok(r) => Ok(Handle::from_raw(r)),
                Err(e) => {
                    vm::VM.with(|v| v.borrow_mut().thrown = Some(e));
                    Err(crate::result::Throw(PhantomData))
                }
            }
        }
    }
    impl JsArrayBuffer {
        /// fresh memory is zeroed
        pub fn new<'a, C: Context<'a>>(_: &mut C, size: u32) -> JsResult<'a, JsArrayBuffer> {
            Ok(Handle::from_raw(vm::buffer_bytes(vec![], size as usize)))
        }
        pub(crate) fn data<'b>(&self) -> BinaryData<'b> {
            vm::with(self.0, |s| match s {
                Slot::Buffer(v, n) => BinaryData { base: v.as_mut_ptr() as *mut u8, size: *n, phantom: PhantomData },
                _ => BinaryData { base: std::ptr::NonNull::dangling().as_ptr(), size: 0, phantom: PhantomData },
            })
        }
    }
    #[derive(Clone, Copy)]
    pub struct BinaryData<'a> {
        base: *mut u8,
        size: usize,
        phantom: PhantomData<&'a u8>,
    }
    /// the types neon lets a buffer be viewed as
    pub trait ViewType: Copy {}
    impl ViewType for u8 {}
    impl ViewType for i8 {}
    impl ViewType for u16 {}
    impl ViewType for i16 {}
    impl ViewType for u32 {}
    impl ViewType for i32 {}
    impl ViewType for f32 {}
    impl<'a> BinaryData<'a> {
        pub fn as_slice<T: ViewType>(self) -> &'a [T] {
            unsafe { std::slice::from_raw_parts(self.base as *const T, self.size / std::mem::size_of::<T>()) }
        }
        pub fn as_mut_slice<T: ViewType>(self) -> &'a mut [T] {
            unsafe { std::slice::from_raw_parts_mut(self.base as *mut T, self.size / std::mem::size_of::<T>()) }
        }
        pub fn len(self) -> usize { self.size }
    }

    #[allow(unused)]
    type Unused<'a> = (CallContext<'a, JsObject>, TaskContext<'a>);
}

pub mod object {
    use super::*;
    use crate::context::Context;
    use crate::handle::Handle;
    use crate::result::{JsResult, NeonResult};
    use crate::types::*;

    pub trait PropertyKey {
        fn key(self) -> String;
    }
    impl PropertyKey for u32 {
        fn key(self) -> String { self.to_string() }
    }
    impl<'a> PropertyKey for &'a str {
        fn key(self) -> String { self.to_string() }
    }
    impl<'a> PropertyKey for Handle<'a, JsString> {
        fn key(self) -> String { self.value() }
    }

    pub trait Object: Value {
        fn get<'a, C: Context<'a>, K: PropertyKey>(self, _: &mut C, key: K) -> NeonResult<Handle<'a, JsValue>> {
            vm::get_prop(self.to_raw(), &key.key()).map(Handle::from_raw)
        }
        fn set<'a, C: Context<'a>, K: PropertyKey, W: Value>(self, _: &mut C, key: K, val: Handle<W>) -> NeonResult<bool> {
            vm::set_prop(self.to_raw(), &key.key(), val.raw());
            Ok(true)
        }
        fn get_own_property_names<'a, C: Context<'a>>(self, _: &mut C) -> JsResult<'a, JsArray> {
            let names: Vec<String> = vm::with(self.to_raw(), |s| match s {
                Slot::Object(p) => p.iter().map(|p| p.0.clone()).collect(),
                Slot::Array(v) => (0..v.len()).map(|i| i.to_string()).collect(),
                _ => vec![],
            });
            Ok(Handle::from_raw(vm::array(names.iter().map(|n| vm::string(n)).collect())))
        }
    }

    pub trait This: crate::handle::Managed {}
    impl This for JsObject {}
    impl This for JsUndefined {}

    /// what `declare_types!` makes of a class
    pub trait Class: Object + This {
        type Internals: 'static;
        const NAME: &'static str;
        fn init(cx: crate::context::CallContext<JsUndefined>) -> NeonResult<Self::Internals>;
        fn method(name: &str) -> Option<fn(crate::context::CallContext<Self>) -> JsResult<JsValue>>
        where
            Self: Sized;
    }
}

pub mod borrow {
    use super::*;
    use std::fmt;

    #[derive(Debug)]
    pub enum LoanError {
        Mutating,
        Frozen,
    }
    impl fmt::Display for LoanError {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str(match self {
                LoanError::Mutating => "outstanding mutable loan exists",
                LoanError::Frozen => "object is frozen",
            })
        }
    }

    enum Place<'a, T> {
        Owned(T),
        Slot(*mut T, Raw, PhantomData<&'a T>),
    }
    pub struct Ref<'a, T>(Place<'a, T>);
    pub struct RefMut<'a, T>(Place<'a, T>);
    impl<'a, T> Ref<'a, T> {
        pub(crate) fn plain(t: T) -> Self { Ref(Place::Owned(t)) }
        pub(crate) fn slot(p: *mut T, r: Raw) -> Self { Ref(Place::Slot(p, r, PhantomData)) }
    }
    impl<'a, T> RefMut<'a, T> {
        pub(crate) fn plain(t: T) -> Self { RefMut(Place::Owned(t)) }
        pub(crate) fn slot(p: *mut T, r: Raw) -> Self { RefMut(Place::Slot(p, r, PhantomData)) }
    }
    impl<'a, T> Deref for Ref<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            match &self.0 {
                Place::Owned(t) => t,
                Place::Slot(p, ..) => unsafe { &**p },
            }
        }
    }
    impl<'a, T> Deref for RefMut<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            match &self.0 {
                Place::Owned(t) => t,
                Place::Slot(p, ..) => unsafe { &**p },
            }
        }
    }
    impl<'a, T> DerefMut for RefMut<'a, T> {
        fn deref_mut(&mut self) -> &mut T {
            match &mut self.0 {
                Place::Owned(t) => t,
                Place::Slot(p, ..) => unsafe { &mut **p },
            }
        }
    }
    fn released(r: Raw, by: i32) {
        vm::with(r, |s| if let Slot::Instance(i) = s { i.borrows += by })
    }
    impl<'a, T> Drop for Ref<'a, T> {
        fn drop(&mut self) {
            if let Place::Slot(_, r, _) = &self.0 { released(*r, -1) }
        }
    }
    impl<'a, T> Drop for RefMut<'a, T> {
        fn drop(&mut self) {
            if let Place::Slot(_, r, _) = &self.0 { released(*r, 1) }
        }
    }

    use crate::context::Lock;
    use crate::object::Class;

    fn internals<C: Class>(r: Raw) -> *mut C::Internals {
        vm::with(r, |s| match s {
            Slot::Instance(i) => i.inner.downcast_mut::<C::Internals>().expect("internals of another class") as *mut _,
            _ => panic!("not a class instance"),
        })
    }

    /// class instances and buffers can be borrowed
    pub trait Borrow {
        type Target;
        fn try_borrow<'b>(&'b self, lock: &'b Lock<'b>) -> Result<Ref<'b, Self::Target>, LoanError>;
        fn borrow<'b>(&'b self, lock: &'b Lock<'b>) -> Ref<'b, Self::Target> {
            match self.try_borrow(lock) {
                Ok(r) => r,
                Err(e) => panic!("{}", e),
            }
        }
    }
    pub trait BorrowMut: Borrow {
        fn try_borrow_mut<'b>(&'b mut self, lock: &'b Lock<'b>) -> Result<RefMut<'b, Self::Target>, LoanError>;
        fn borrow_mut<'b>(&'b mut self, lock: &'b Lock<'b>) -> RefMut<'b, Self::Target> {
            match self.try_borrow_mut(lock) {
                Ok(r) => r,
                Err(e) => panic!("{}", e),
            }
        }
    }
    impl<C: Class> Borrow for C {
        type Target = C::Internals;
        fn try_borrow<'b>(&'b self, _: &'b Lock<'b>) -> Result<Ref<'b, C::Internals>, LoanError> {
            let r = self.to_raw();
            let ok = vm::with(r, |s| match s {
                Slot::Instance(i) if i.borrows >= 0 => { i.borrows += 1; true }
                _ => false,
            });
            if !ok { return Err(LoanError::Mutating) }
            Ok(Ref::slot(internals::<C>(r), r))
        }
    }
    impl<C: Class> BorrowMut for C {
        fn try_borrow_mut<'b>(&'b mut self, _: &'b Lock<'b>) -> Result<RefMut<'b, C::Internals>, LoanError> {
            let r = self.to_raw();
            let ok = vm::with(r, |s| match s {
                Slot::Instance(i) if i.borrows == 0 => { i.borrows = -1; true }
                _ => false,
            });
            if !ok { return Err(LoanError::Mutating) }
            Ok(RefMut::slot(internals::<C>(r), r))
        }
    }
    use crate::types::{BinaryData, JsArrayBuffer};
    impl Borrow for JsArrayBuffer {
        type Target = BinaryData<'static>;
        fn try_borrow<'b>(&'b self, _: &'b Lock<'b>) -> Result<Ref<'b, BinaryData<'static>>, LoanError> {
            Ok(Ref::plain(self.data()))
        }
    }
    impl BorrowMut for JsArrayBuffer {
        fn try_borrow_mut<'b>(&'b mut self, _: &'b Lock<'b>) -> Result<RefMut<'b, BinaryData<'static>>, LoanError> {
            Ok(RefMut::plain(self.data()))
        }
    }
}

pub mod context {
    use super::*;
    use crate::borrow::{Borrow, BorrowMut, Ref, RefMut};
    use crate::handle::{Handle, Managed};
    use crate::object::This;
    use crate::result::{JsResult, NeonResult};
    use crate::types::*;

    pub struct Lock<'a>(PhantomData<&'a ()>);

    pub trait Context<'a>: Sized {
        fn lock(&self) -> Lock<'_> { Lock(PhantomData) }
        fn borrow<'c, V: Borrow, T, F>(&self, v: &'c Handle<'c, V>, f: F) -> T
        where
            V: crate::handle::Managed,
            F: for<'b> FnOnce(Ref<'b, V::Target>) -> T,
        {
            let lock = self.lock();
            let r = Borrow::borrow(&**v, &lock);
            f(r)
        }
        fn borrow_mut<'c, V: BorrowMut, T, F>(&self, v: &'c mut Handle<'c, V>, f: F) -> T
        where
            V: crate::handle::Managed,
            F: for<'b> FnOnce(RefMut<'b, V::Target>) -> T,
        {
            let lock = self.lock();
            let mut v = **v;
            let r = BorrowMut::borrow_mut(&mut v, &lock);
            f(r)
        }
        fn execute_scoped<T, F: FnOnce(&mut Self) -> T>(&mut self, f: F) -> T { f(self) }
        fn compute_scoped<'b, V: Value + 'b + 'a, F: FnOnce(&mut Self) -> JsResult<'b, V>>(&mut self, f: F) -> JsResult<'a, V> {
            f(self).map(|h| Handle::from_raw(h.raw()))
        }
        fn array_buffer(&mut self, size: u32) -> JsResult<'a, JsArrayBuffer> { JsArrayBuffer::new(self, size) }
        fn error<S: AsRef<str>>(&mut self, msg: S) -> JsResult<'a, JsError> { JsError::error(self, msg) }
        fn type_error<S: AsRef<str>>(&mut self, msg: S) -> JsResult<'a, JsError> { JsError::type_error(self, msg) }
        fn range_error<S: AsRef<str>>(&mut self, msg: S) -> JsResult<'a, JsError> { JsError::range_error(self, msg) }
        fn undefined(&mut self) -> Handle<'a, JsUndefined> { JsUndefined::new() }
        fn null(&mut self) -> Handle<'a, JsNull> { JsNull::new() }
        fn boolean(&mut self, b: bool) -> Handle<'a, JsBoolean> { JsBoolean::new(self, b) }
        fn number<T: Into<f64>>(&mut self, x: T) -> Handle<'a, JsNumber> { JsNumber::new(self, x) }
        fn string<S: AsRef<str>>(&mut self, s: S) -> Handle<'a, JsString> { JsString::new(self, s) }
        fn empty_array(&mut self) -> Handle<'a, JsArray> { JsArray::new(self, 0) }
        fn empty_object(&mut self) -> Handle<'a, JsObject> { JsObject::new(self) }
        fn throw<'b, T: Value, U>(&mut self, v: Handle<'b, T>) -> NeonResult<U> {
            vm::VM.with(|m| m.borrow_mut().thrown = Some(v.raw()));
            Err(crate::result::Throw(PhantomData))
        }
        fn throw_error<S: AsRef<str>, T>(&mut self, msg: S) -> NeonResult<T> {
            Err(vm::throw("Error", msg.as_ref().to_string()))
        }
        fn throw_type_error<S: AsRef<str>, T>(&mut self, msg: S) -> NeonResult<T> {
            Err(vm::throw("TypeError", msg.as_ref().to_string()))
        }
        fn throw_range_error<S: AsRef<str>, T>(&mut self, msg: S) -> NeonResult<T> {
            Err(vm::throw("RangeError", msg.as_ref().to_string()))
        }
    }

    pub struct CallContext<'a, T: This> {
        pub(crate) this: Raw,
        pub(crate) args: Vec<Raw>,
        pub(crate) phantom: PhantomData<&'a T>,
    }
    pub type FunctionContext<'a> = CallContext<'a, JsObject>;
    impl<'a, T: This> Context<'a> for CallContext<'a, T> {}
    impl<'a, T: This> CallContext<'a, T> {
        pub(crate) fn new(this: Raw, args: &[Raw]) -> Self {
            CallContext { this, args: args.to_vec(), phantom: PhantomData }
        }
        pub fn len(&self) -> i32 { self.args.len() as i32 }
        pub fn this(&mut self) -> Handle<'a, T> { Handle::new(T::from_raw(self.this)) }
        pub fn argument_opt(&mut self, i: i32) -> Option<Handle<'a, JsValue>> {
            self.args.get(i as usize).map(|r| Handle::from_raw(*r))
        }
        pub fn argument<V: Value>(&mut self, i: i32) -> JsResult<'a, V> {
            match self.argument_opt(i) {
                Some(v) => v.downcast_or_throw(self),
                None => self.throw_type_error("not enough arguments"),
            }
        }
    }

    pub struct TaskContext<'a>(pub(crate) PhantomData<&'a ()>);
    impl<'a> Context<'a> for TaskContext<'a> {}

    pub type Exported = Box<dyn Fn(&[Raw]) -> Result<Raw, Raw> + Send + Sync>;
    pub type MethodCall = fn(Raw, &str, &[Raw]) -> Result<Raw, Raw>;

    /// what the module exports: classes by constructor and method dispatch, and functions
    #[derive(Default)]
    pub struct Exports {
        pub classes: Vec<(String, fn(&[Raw]) -> Result<Raw, Raw>, MethodCall, &'static str)>,
        pub functions: Vec<(String, Exported)>,
    }
    pub struct ModuleContext<'a> {
        pub exports: Exports,
        pub phantom: PhantomData<&'a ()>,
    }
    impl<'a> Context<'a> for ModuleContext<'a> {}

    fn construct<C: crate::object::Class>(args: &[Raw]) -> Result<Raw, Raw> {
        vm::clear_thrown();
        match C::init(CallContext::new(vm::undefined(), args)) {
            Ok(i) => Ok(vm::alloc(Slot::Instance(vm::Instance { class: C::NAME, inner: Box::new(i), borrows: 0 }))),
            Err(_) => Err(vm::take_thrown()),
        }
    }
    fn dispatch<C: crate::object::Class>(this: Raw, name: &str, args: &[Raw]) -> Result<Raw, Raw> {
        vm::clear_thrown();
        if !C::is_typeof(this) {
            return Err(vm::alloc(Slot::Error("TypeError", "this is not an object of the expected type.".into())));
        }
        match C::method(name) {
            Some(m) => match m(CallContext::new(this, args)) {
                Ok(h) => Ok(h.raw()),
                Err(_) => Err(vm::take_thrown()),
            },
            None => Err(vm::alloc(Slot::Error("TypeError", format!("{} is not a function", name)))),
        }
    }

    impl<'a> ModuleContext<'a> {
        pub fn export_class<C: crate::object::Class>(&mut self, name: &str) -> NeonResult<()> {
            self.exports.classes.push((name.to_string(), construct::<C>, dispatch::<C>, C::NAME));
            Ok(())
        }
        pub fn export_function<T: Value + 'static>(&mut self, name: &str, f: fn(FunctionContext) -> JsResult<T>) -> NeonResult<()> {
            self.exports.functions.push((
                name.to_string(),
                Box::new(move |args| {
                    vm::clear_thrown();
                    match f(CallContext::new(vm::object_props(vec![]), args)) {
                        Ok(h) => Ok(h.raw()),
                        Err(_) => Err(vm::take_thrown()),
                    }
                }),
            ));
            Ok(())
        }
    }
    impl Exports {
        pub fn construct(&self, class: &str, args: &[Raw]) -> Result<Raw, Raw> {
            let c = self.classes.iter().find(|c| c.0 == class).expect("no such class");
            (c.1)(args)
        }
        pub fn method(&self, class: &str, this: Raw, name: &str, args: &[Raw]) -> Result<Raw, Raw> {
            let c = self.classes.iter().find(|c| c.0 == class).expect("no such class");
            (c.2)(this, name, args)
        }
        pub fn function(&self, name: &str, args: &[Raw]) -> Result<Raw, Raw> {
            let f = self.functions.iter().find(|f| f.0 == name).expect("no such function");
            (f.1)(args)
        }
    }

    #[allow(unused)]
    fn unused<T: Managed>(_: T) {}
}

pub mod task {
    use super::*;
    use crate::context::TaskContext;
    use crate::handle::Handle;
    use crate::result::JsResult;
    use crate::types::{JsFunction, Value};

    pub trait Task: Send + Sized + 'static {
        type Output: Send + 'static;
        type Error: Send + 'static;
        type JsEvent: Value;

        fn perform(&self) -> Result<Self::Output, Self::Error>;
        fn complete<'a>(self, cx: TaskContext<'a>, result: Result<Self::Output, Self::Error>) -> JsResult<'a, Self::JsEvent>;

        /// `perform` starts at once on a thread of its own; `complete` and the callback run on
        /// the event loop, with (error) or (null, result).
        fn schedule(self, callback: Handle<JsFunction>) {
            let cb = callback.raw();
            let thread = std::thread::spawn(move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.perform()));
                (self, r)
            });
            vm::VM.with(|v| {
                v.borrow_mut().pending.push(vm::Pending(Box::new(move || {
                    let (task, result) = thread.join().expect("task thread");
                    let result = match result {
                        Ok(r) => r,
                        Err(p) => std::panic::resume_unwind(p),
                    };
                    vm::clear_thrown();
                    let args = match task.complete(TaskContext(PhantomData), result) {
                        Ok(h) => vec![vm::null(), h.raw()],
                        Err(_) => vec![vm::take_thrown(), vm::undefined()],
                    };
                    let _ = vm::call(cb, &args);
                })))
            });
        }
    }
}

pub mod prelude {
    pub use crate::borrow::{Borrow, BorrowMut};
    pub use crate::context::{CallContext, Context, FunctionContext, ModuleContext, TaskContext};
    pub use crate::handle::Handle;
    pub use crate::object::{Class, Object};
    pub use crate::result::{JsResult, JsResultExt, NeonResult};
    pub use crate::task::Task;
    pub use crate::types::{
        BinaryData, JsArray, JsArrayBuffer, JsBoolean, JsError, JsFunction, JsNull, JsNumber, JsObject, JsString,
        JsUndefined, JsValue, Value,
    };
    pub use crate::{declare_types, register_module};
}

#[macro_export]
macro_rules! declare_types {
    ( $( $(#[$attr:meta])* pub class $cls:ident as $name:ident for $ty:ty {
        init($($icx:tt)+) $ibody:block
        $( method $m:ident ($($mcx:tt)+) $mbody:block )*
    } )* ) => { $(
        $(#[$attr])*
        #[derive(Clone, Copy)]
        pub struct $cls($crate::vm::Raw);
        impl $crate::handle::Managed for $cls {
            fn to_raw(self) -> $crate::vm::Raw { self.0 }
            fn from_raw(r: $crate::vm::Raw) -> Self { $cls(r) }
        }
        impl $crate::types::Value for $cls {
            fn is_typeof(r: $crate::vm::Raw) -> bool {
                $crate::vm::with(r, |s| match s {
                    $crate::vm::Slot::Instance(i) => i.class == stringify!($name),
                    _ => false,
                })
            }
            fn name() -> String { stringify!($name).to_string() }
        }
        impl $crate::object::Object for $cls {}
        impl $crate::object::This for $cls {}
        impl $crate::object::Class for $cls {
            type Internals = $ty;
            const NAME: &'static str = stringify!($name);
            fn init($($icx)+: $crate::context::CallContext<$crate::types::JsUndefined>) -> $crate::result::NeonResult<$ty> $ibody
            fn method(name: &str) -> Option<fn($crate::context::CallContext<Self>) -> $crate::result::JsResult<$crate::types::JsValue>> {
                $(
                    #[allow(non_snake_case)]
                    fn $m<'a>($($mcx)+: $crate::context::CallContext<'a, $cls>) -> $crate::result::JsResult<'a, $crate::types::JsValue> $mbody
                )*
                match name {
                    $( stringify!($m) => Some($m), )*
                    _ => None,
                }
            }
        }
    )* };
}

#[macro_export]
macro_rules! register_module {
    (mut $m:ident, $body:block) => { $crate::register_module!($m, $body); };
    (|mut $m:ident| $body:block) => { $crate::register_module!($m, $body); };
    (|$m:ident| $body:block) => { $crate::register_module!($m, $body); };
    ($m:ident, $body:block) => {
        /// the module's entry point, called by the host when the module is loaded
        pub fn neon_module_init<'a>($m: &mut $crate::context::ModuleContext<'a>) -> $crate::result::NeonResult<()> $body
    };
}
