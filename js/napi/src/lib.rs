//! A small implementation of the part of napi-rs 1 (getditto's fork) that safer_ffi uses, over Node-API.
//! It stands in for a git dependency that cannot be fetched here; Node itself, and safer_ffi's binding code, are real.
#![allow(clippy::missing_safety_doc)]
use std::any::Any;
use std::ffi::CString;
use std::future::Future;
use std::marker::PhantomData;
use std::os::raw::{c_int, c_void};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::ptr::null_mut;

pub mod sys;
pub mod threadsafe_function;

pub type Callback = unsafe extern "C" fn(sys::napi_env, sys::napi_callback_info) -> sys::napi_value;
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(i32)]
pub enum Status {
    Ok, InvalidArg, ObjectExpected, StringExpected, NameExpected, FunctionExpected, NumberExpected, BooleanExpected,
    ArrayExpected, GenericFailure, PendingException, Cancelled, EscapeCalledTwice, HandleScopeMismatch,
    CallbackScopeMismatch, QueueFull, Closing, BigintExpected, DateExpected, ArrayBufferExpected,
    DetachableArraybufferExpected, WouldDeadlock, NoExternalBuffersAllowed, CannotRunJs, Unknown,
}
impl From<c_int> for Status {
    fn from(x: c_int) -> Status {
        if (0..Status::Unknown as c_int).contains(&x) { unsafe { std::mem::transmute(x) } } else { Status::Unknown }
    }
}

#[derive(Debug, Clone)]
pub struct Error {
    pub status: Status,
    pub reason: String,
}
impl Error {
    pub fn new(status: Status, reason: String) -> Error { Error { status, reason } }
    pub fn from_reason(reason: String) -> Error { Error { status: Status::GenericFailure, reason } }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}: {}", self.status, self.reason) }
}
impl std::error::Error for Error {}

pub(crate) fn check(s: c_int, what: &str) -> Result<()> {
    match Status::from(s) {
        Status::Ok => Ok(()),
        s => Err(Error::new(s, format!("{s:?} in {what}"))),
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(i32)]
pub enum ValueType { Undefined, Null, Boolean, Number, String, Symbol, Object, Function, External, Bigint, Unknown }

fn type_of(env: sys::napi_env, v: sys::napi_value) -> Result<ValueType> {
    let mut t = 0;
    check(unsafe { sys::napi_typeof(env, v, &mut t) }, "typeof")?;
    Ok(if (0..10).contains(&t) { unsafe { std::mem::transmute(t) } } else { ValueType::Unknown })
}

pub trait NapiValue: Sized {
    unsafe fn from_raw(env: sys::napi_env, value: sys::napi_value) -> Result<Self>;
    unsafe fn from_raw_unchecked(env: sys::napi_env, value: sys::napi_value) -> Self;
    unsafe fn raw(&self) -> sys::napi_value;
}

#[derive(Debug, Clone, Copy)]
struct Value {
    env: sys::napi_env,
    value: sys::napi_value,
}

macro_rules! js_types {($($T:ident $K:ident,)*) => ($(
    #[derive(Debug)]
    pub struct $T(Value);
    impl NapiValue for $T {
        unsafe fn from_raw(env: sys::napi_env, value: sys::napi_value) -> Result<Self> {
            let t = type_of(env, value)?;
            if ValueType::$K != ValueType::Unknown && t != ValueType::$K {
                return Err(Error::new(Status::InvalidArg, format!("expect {:?}, got: {:?}", ValueType::$K, t)));
            }
            Ok($T(Value { env, value }))
        }
        unsafe fn from_raw_unchecked(env: sys::napi_env, value: sys::napi_value) -> Self { $T(Value { env, value }) }
        unsafe fn raw(&self) -> sys::napi_value { self.0.value }
    }
    impl $T {
        pub fn get_type(&self) -> Result<ValueType> { type_of(self.0.env, self.0.value) }
        pub fn is_buffer(&self) -> Result<bool> {
            let mut b = false;
            check(unsafe { sys::napi_is_buffer(self.0.env, self.0.value, &mut b) }, "is_buffer")?;
            Ok(b)
        }
    }
)*)}
js_types! {
    JsUnknown Unknown, JsUndefined Undefined, JsNull Null, JsBoolean Boolean, JsNumber Number, JsString String,
    JsObject Object, JsFunction Function, JsBigint Bigint, JsBuffer Object,
}
macro_rules! try_from {($($T:ident)*) => ($(
    impl TryFrom<JsUnknown> for $T {
        type Error = Error;
        fn try_from(v: JsUnknown) -> Result<$T> { unsafe { <$T as NapiValue>::from_raw(v.0.env, v.0.value) } }
    }
)*)}
macro_rules! into_unknown {($($T:ident)*) => ($(
    impl $T {
        pub fn into_unknown(self) -> JsUnknown { JsUnknown(self.0) }
    }
)*)}
into_unknown! { JsUnknown JsUndefined JsNull JsBoolean JsNumber JsString JsObject JsFunction JsBuffer }
impl JsBigint {
    pub fn into_unknown(self) -> Result<JsUnknown> { Ok(JsUnknown(self.0)) }
}
try_from! { JsUndefined JsNull JsBoolean JsNumber JsString JsObject JsFunction JsBigint JsBuffer }

impl JsUnknown {
    pub unsafe fn cast<T: NapiValue>(&self) -> T { T::from_raw_unchecked(self.0.env, self.0.value) }
}
impl JsBoolean {
    pub fn get_value(&self) -> Result<bool> {
        let mut b = false;
        check(unsafe { sys::napi_get_value_bool(self.0.env, self.0.value, &mut b) }, "get_value_bool")?;
        Ok(b)
    }
}
macro_rules! numbers {($($t:ty: $f:ident, $create:ident $c:ident;)*) => (
    $(impl TryFrom<JsNumber> for $t {
        type Error = Error;
        fn try_from(v: JsNumber) -> Result<$t> {
            let mut x: $t = Default::default();
            check(unsafe { sys::$f(v.0.env, v.0.value, &mut x) }, stringify!($f))?;
            Ok(x)
        }
    })*
    impl Env {
        $(pub fn $create(&self, x: $t) -> Result<JsNumber> {
            self.make(|env, out| unsafe { sys::$c(env, x, out) }, stringify!($c)).map(JsNumber)
        })*
    }
)}
numbers! {
    u32: napi_get_value_uint32, create_uint32 napi_create_uint32;
    i32: napi_get_value_int32, create_int32 napi_create_int32;
    i64: napi_get_value_int64, create_int64 napi_create_int64;
    f64: napi_get_value_double, create_double napi_create_double;
}
impl JsBigint {
    pub fn get_u64(&self) -> Result<(u64, bool)> {
        let (mut x, mut l) = (0, false);
        check(unsafe { sys::napi_get_value_bigint_uint64(self.0.env, self.0.value, &mut x, &mut l) }, "bigint_uint64")?;
        Ok((x, l))
    }
    pub fn get_i64(&self) -> Result<(i64, bool)> {
        let (mut x, mut l) = (0, false);
        check(unsafe { sys::napi_get_value_bigint_int64(self.0.env, self.0.value, &mut x, &mut l) }, "bigint_int64")?;
        Ok((x, l))
    }
}

#[derive(Debug)]
pub struct JsStringUtf8 {
    bytes: Vec<u8>,
    inner: JsString,
}
impl JsString {
    pub fn into_utf8(self) -> Result<JsStringUtf8> {
        let Value { env, value } = self.0;
        let mut n = 0;
        check(unsafe { sys::napi_get_value_string_utf8(env, value, null_mut(), 0, &mut n) }, "string length")?;
        let mut bytes = vec![0u8; n + 1];
        check(unsafe { sys::napi_get_value_string_utf8(env, value, bytes.as_mut_ptr().cast(), n + 1, &mut n) }, "string")?;
        bytes.truncate(n);
        Ok(JsStringUtf8 { bytes, inner: self })
    }
}
impl JsStringUtf8 {
    pub fn as_str(&self) -> Result<&str> {
        std::str::from_utf8(&self.bytes).map_err(|e| Error::new(Status::GenericFailure, e.to_string()))
    }
    pub fn as_slice(&self) -> &[u8] { &self.bytes }
    pub fn into_owned(self) -> Result<String> { self.as_str().map(String::from) }
    pub fn take(self) -> Vec<u8> { self.bytes }
    pub fn into_value(self) -> JsString { self.inner }
}

#[derive(Debug)]
pub struct JsBufferValue {
    inner: JsBuffer,
    data: *const u8,
    len: usize,
}
impl JsBuffer {
    pub fn into_value(self) -> Result<JsBufferValue> {
        let (mut p, mut n) = (null_mut(), 0);
        check(unsafe { sys::napi_get_buffer_info(self.0.env, self.0.value, &mut p, &mut n) }, "get_buffer_info")?;
        Ok(JsBufferValue { inner: self, data: p.cast(), len: n })
    }
}
impl JsBufferValue {
    pub fn into_raw(self) -> JsBuffer { self.inner }
    pub fn into_unknown(self) -> JsUnknown { self.inner.into_unknown() }
}
impl std::ops::Deref for JsBufferValue {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        if self.len == 0 { &[] } else { unsafe { std::slice::from_raw_parts(self.data, self.len) } }
    }
}

impl JsObject {
    pub fn set_named_property<V: NapiValue>(&mut self, name: &str, v: V) -> Result<()> {
        let name = CString::new(name).map_err(|e| Error::from_reason(e.to_string()))?;
        check(unsafe { sys::napi_set_named_property(self.0.env, self.0.value, name.as_ptr(), v.raw()) }, "set_named_property")
    }
    pub fn get_named_property<V: NapiValue>(&self, name: &str) -> Result<V> {
        let name = CString::new(name).map_err(|e| Error::from_reason(e.to_string()))?;
        let mut out = null_mut();
        check(unsafe { sys::napi_get_named_property(self.0.env, self.0.value, name.as_ptr(), &mut out) }, "get_named_property")?;
        unsafe { V::from_raw(self.0.env, out) }
    }
    pub fn create_named_method(&mut self, name: &str, f: Callback) -> Result<()> {
        let env = Env(self.0.env);
        let v = env.make(|e, out| unsafe { sys::napi_create_function(e, name.as_ptr().cast(), name.len(), f, null_mut(), out) }, "create_function")?;
        self.set_named_property(name, JsFunction(v))
    }
}
impl JsFunction {
    /// An exception thrown by the function stays pending.
    pub fn call(&self, this: Option<&JsObject>, args: &[JsUnknown]) -> Result<JsUnknown> {
        let env = Env(self.0.env);
        let this = match this {
            Some(t) => t.0.value,
            None => env.get_undefined()?.0.value,
        };
        let args: Vec<_> = args.iter().map(|a| a.0.value).collect();
        env.make(|e, out| unsafe { sys::napi_call_function(e, this, self.0.value, args.len(), args.as_ptr(), out) }, "call").map(JsUnknown)
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Env(pub(crate) sys::napi_env);

impl Env {
    pub unsafe fn from_raw(env: sys::napi_env) -> Env { Env(env) }
    pub fn raw(&self) -> sys::napi_env { self.0 }
    fn make(&self, f: impl FnOnce(sys::napi_env, *mut sys::napi_value) -> c_int, what: &str) -> Result<Value> {
        let mut out = null_mut();
        check(f(self.0, &mut out), what)?;
        Ok(Value { env: self.0, value: out })
    }
    pub fn get_undefined(&self) -> Result<JsUndefined> { self.make(|e, o| unsafe { sys::napi_get_undefined(e, o) }, "undefined").map(JsUndefined) }
    pub fn get_null(&self) -> Result<JsNull> { self.make(|e, o| unsafe { sys::napi_get_null(e, o) }, "null").map(JsNull) }
    pub fn get_boolean(&self, b: bool) -> Result<JsBoolean> { self.make(|e, o| unsafe { sys::napi_get_boolean(e, b, o) }, "boolean").map(JsBoolean) }
    pub fn create_object(&self) -> Result<JsObject> { self.make(|e, o| unsafe { sys::napi_create_object(e, o) }, "object").map(JsObject) }
    pub fn create_array(&self) -> Result<JsObject> { self.make(|e, o| unsafe { sys::napi_create_array(e, o) }, "array").map(JsObject) }
    pub fn create_string(&self, s: &str) -> Result<JsString> {
        self.make(|e, o| unsafe { sys::napi_create_string_utf8(e, s.as_ptr().cast(), s.len(), o) }, "string").map(JsString)
    }
    pub fn create_string_from_std(&self, s: String) -> Result<JsString> { self.create_string(&s) }
    pub fn create_bigint_from_words(&self, negative: bool, words: Vec<u64>) -> Result<JsBigint> {
        self.make(|e, o| unsafe { sys::napi_create_bigint_words(e, negative as c_int, words.len(), words.as_ptr(), o) }, "bigint").map(JsBigint)
    }
    pub fn create_buffer_copy(&self, data: &[u8]) -> Result<JsBufferValue> {
        let mut p = null_mut();
        let v = self.make(|e, o| unsafe { sys::napi_create_buffer_copy(e, data.len(), data.as_ptr().cast(), &mut p, o) }, "buffer")?;
        Ok(JsBufferValue { inner: JsBuffer(v), data: p as *const u8, len: data.len() })
    }
    pub fn create_function_from_closure<F, R>(&self, name: &str, f: F) -> Result<JsFunction>
    where
        F: 'static + Send + Sync + Fn(CallContext<'_>) -> Result<R>,
        R: NapiValue,
    {
        unsafe extern "C" fn call<F: Fn(CallContext<'_>) -> Result<R>, R: NapiValue>(env: sys::napi_env, info: sys::napi_callback_info) -> sys::napi_value {
            let mut data = null_mut();
            sys::napi_get_cb_info(env, info, null_mut(), null_mut(), null_mut(), &mut data);
            __js_call(env, info, 0, |ctx| (*data.cast::<F>())(ctx))
        }
        unsafe extern "C" fn fin<F>(_: sys::napi_env, data: *mut c_void, _: *mut c_void) { drop(Box::from_raw(data.cast::<F>())) }
        let data = Box::into_raw(Box::new(f)).cast::<c_void>();
        let v = self.make(|e, o| unsafe { sys::napi_create_function(e, name.as_ptr().cast(), name.len(), call::<F, R>, data, o) }, "create_function")?;
        check(unsafe { sys::napi_add_finalizer(self.0, v.value, data, fin::<F>, null_mut(), null_mut()) }, "add_finalizer")?;
        Ok(JsFunction(v))
    }
    fn create_error(&self, e: &Error) -> Result<Value> {
        let code = self.create_string(&format!("{:?}", e.status))?.0.value;
        let msg = self.create_string(&e.reason)?.0.value;
        self.make(|env, o| unsafe { sys::napi_create_error(env, code, msg, o) }, "create_error")
    }
    fn throw(&self, e: &Error) {
        let mut pending = false;
        unsafe {
            sys::napi_is_exception_pending(self.0, &mut pending);
            if !pending {
                if let Ok(v) = self.create_error(e) {
                    sys::napi_throw(self.0, v.value);
                }
            }
        }
    }

    /// Runs `work` on another thread, then settles the promise on this one.
    fn promise<T: 'static + Send, V: NapiValue>(
        &self,
        work: impl 'static + Send + FnOnce() -> Result<T>,
        then: impl 'static + Send + FnOnce(&Env, T) -> Result<V>,
    ) -> Result<JsObject> {
        struct Settle(sys::napi_deferred);
        unsafe impl Send for Settle {}
        let mut deferred = null_mut();
        let promise = self.make(|e, o| unsafe { sys::napi_create_promise(e, &mut deferred, o) }, "promise")?;
        let deferred = Settle(deferred);
        let back = threadsafe_function::Main::new(self)?;
        std::thread::spawn(move || {
            let r = catch_unwind(AssertUnwindSafe(work)).unwrap_or_else(|p| Err(panicked(p)));
            back.run(Box::new(move |env: &Env| {
                let deferred = deferred;
                let r = r.and_then(|x| then(env, x));
                unsafe {
                    match r {
                        Ok(v) => sys::napi_resolve_deferred(env.0, deferred.0, v.raw()),
                        Err(e) => sys::napi_reject_deferred(env.0, deferred.0, env.create_error(&e).unwrap().value),
                    };
                }
            }));
        });
        Ok(JsObject(promise))
    }
    pub fn execute_tokio_future<T: 'static + Send, V: NapiValue>(
        &self,
        fut: impl 'static + Send + Future<Output = Result<T>>,
        resolver: impl 'static + Send + Sync + FnOnce(&mut Env, T) -> Result<V>,
    ) -> Result<JsObject> {
        self.promise(move || block_on(fut), move |env, x| resolver(&mut { *env }, x))
    }
    pub fn spawn<T: 'static + Send + Task>(&self, mut task: T) -> Result<AsyncWorkPromise> {
        self.promise(move || task.compute().map(|r| (task, r)), |env, (task, r)| task.resolve(*env, r)).map(AsyncWorkPromise)
    }
}

pub trait Task: Sized {
    type Output: 'static + Send + Sized;
    type JsValue: NapiValue;
    fn compute(&mut self) -> Result<Self::Output>;
    fn resolve(self, env: Env, output: Self::Output) -> Result<Self::JsValue>;
}
#[derive(Debug)]
pub struct AsyncWorkPromise(JsObject);
impl AsyncWorkPromise {
    pub fn promise_object(&self) -> JsObject { JsObject(self.0 .0) }
}

fn block_on<F: Future>(fut: F) -> F::Output {
    struct Thread(std::thread::Thread);
    impl std::task::Wake for Thread {
        fn wake(self: std::sync::Arc<Self>) { self.0.unpark() }
    }
    let waker = std::sync::Arc::new(Thread(std::thread::current())).into();
    let mut cx = std::task::Context::from_waker(&waker);
    let mut fut = Box::pin(fut);
    loop {
        match fut.as_mut().poll(&mut cx) {
            std::task::Poll::Ready(x) => return x,
            std::task::Poll::Pending => std::thread::park(),
        }
    }
}

pub struct CallContext<'env> {
    pub env: &'env Env,
    args: Vec<sys::napi_value>,
    /// number of arguments which were passed
    pub length: usize,
    declared: usize,
    _p: PhantomData<&'env ()>,
}
impl CallContext<'_> {
    pub fn get<T: NapiValue>(&self, i: usize) -> Result<T> {
        if i >= self.declared.max(self.length) {
            return Err(Error::new(Status::GenericFailure, "Arguments index out of range".into()));
        }
        Ok(unsafe { T::from_raw_unchecked(self.env.0, self.args[i]) })
    }
}

fn panicked(p: Box<dyn Any + Send>) -> Error {
    let m = p.downcast_ref::<String>().map(|s| &**s).or_else(|| p.downcast_ref::<&str>().copied()).unwrap_or("panic");
    Error::from_reason(m.into())
}

#[doc(hidden)]
pub unsafe fn __js_call<R: NapiValue>(
    env: sys::napi_env,
    info: sys::napi_callback_info,
    declared: usize,
    f: impl FnOnce(CallContext<'_>) -> Result<R>,
) -> sys::napi_value {
    let env = Env(env);
    let mut args = vec![null_mut(); declared.max(16)];
    let mut length = args.len();
    sys::napi_get_cb_info(env.0, info, &mut length, args.as_mut_ptr(), null_mut(), null_mut());
    let ctx = CallContext { env: &env, args, length, declared, _p: PhantomData };
    match catch_unwind(AssertUnwindSafe(|| f(ctx))).unwrap_or_else(|p| Err(panicked(p))) {
        Ok(v) => v.raw(),
        Err(e) => {
            env.throw(&e);
            null_mut()
        }
    }
}

