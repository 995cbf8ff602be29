use super::*;

#[allow(non_snake_case)]
pub mod ErrorStrategy {
    #[derive(Debug)]
    pub enum Fatal {}
}
#[derive(Debug, Clone, Copy)]
#[repr(i32)]
pub enum ThreadsafeFunctionCallMode { NonBlocking, Blocking }

pub struct ThreadSafeCallContext<T> {
    pub env: Env,
    pub value: T,
}

pub struct ThreadsafeFunction<T: 'static, ES = ErrorStrategy::Fatal> {
    raw: sys::napi_threadsafe_function,
    _p: PhantomData<(fn(T), ES)>,
}
unsafe impl<T, ES> Send for ThreadsafeFunction<T, ES> {}
unsafe impl<T, ES> Sync for ThreadsafeFunction<T, ES> {}

type Convert<T> = Box<dyn FnMut(ThreadSafeCallContext<T>) -> Result<Vec<JsUnknown>>>;

impl<T: 'static> ThreadsafeFunction<T, ErrorStrategy::Fatal> {
    pub fn create(
        env: sys::napi_env,
        func: &JsFunction,
        max_queue: usize,
        convert: impl 'static + FnMut(ThreadSafeCallContext<T>) -> Result<Vec<JsUnknown>>,
    ) -> Result<Self> {
        unsafe extern "C" fn fin<T>(_: sys::napi_env, data: *mut c_void, _: *mut c_void) { drop(Box::from_raw(data.cast::<Convert<T>>())) }
        unsafe extern "C" fn call_js<T: 'static>(env: sys::napi_env, f: sys::napi_value, ctx: *mut c_void, data: *mut c_void) {
            let value = *Box::from_raw(data.cast::<T>());
            if env.is_null() {
                return; // node is shutting down
            }
            let env = Env(env);
            let convert = &mut *ctx.cast::<Convert<T>>();
            let args = match catch_unwind(AssertUnwindSafe(|| convert(ThreadSafeCallContext { env, value }))).unwrap_or_else(|p| Err(panicked(p))) {
                Ok(a) => a,
                Err(e) => {
                    if let Ok(v) = env.create_error(&e) {
                        sys::napi_fatal_exception(env.0, v.value);
                    }
                    return;
                }
            };
            if let Err(e) = JsFunction::from_raw_unchecked(env.0, f).call(None, &args) {
                let mut v = null_mut();
                if sys::napi_get_and_clear_last_exception(env.0, &mut v) == 0 && e.status == Status::PendingException {
                    sys::napi_fatal_exception(env.0, v);
                }
            }
        }
        let e = Env(env);
        let name = e.create_string("safer_ffi")?;
        let ctx = Box::into_raw(Box::new(Box::new(convert) as Convert<T>)).cast::<c_void>();
        let mut raw = null_mut();
        check(
            unsafe {
                sys::napi_create_threadsafe_function(env, func.raw(), null_mut(), name.raw(), max_queue, 1, ctx, Some(fin::<T>), ctx, Some(call_js::<T>), &mut raw)
            },
            "create_threadsafe_function",
        )?;
        Ok(ThreadsafeFunction { raw, _p: PhantomData })
    }
    pub fn call(&self, value: T, mode: ThreadsafeFunctionCallMode) -> Status {
        let data = Box::into_raw(Box::new(value));
        let s = unsafe { sys::napi_call_threadsafe_function(self.raw, data.cast(), mode as c_int) };
        if s != 0 {
            drop(unsafe { Box::from_raw(data) });
        }
        s.into()
    }
    pub fn refer(&mut self, env: &Env) -> Result<()> { check(unsafe { sys::napi_ref_threadsafe_function(env.0, self.raw) }, "ref") }
    pub fn unref(&mut self, env: &Env) -> Result<()> { check(unsafe { sys::napi_unref_threadsafe_function(env.0, self.raw) }, "unref") }
}
impl<T, ES> Drop for ThreadsafeFunction<T, ES> {
    fn drop(&mut self) { unsafe { sys::napi_release_threadsafe_function(self.raw, 0) }; }
}

type Job = Box<dyn FnOnce(&Env) + Send>;

/// Lets another thread run one job on the main one.
pub(crate) struct Main(sys::napi_threadsafe_function);
unsafe impl Send for Main {}
impl Main {
    pub(crate) fn new(env: &Env) -> Result<Main> {
        unsafe extern "C" fn call_js(env: sys::napi_env, _: sys::napi_value, _: *mut c_void, data: *mut c_void) {
            let job = *Box::from_raw(data.cast::<Job>());
            if !env.is_null() {
                let _ = catch_unwind(AssertUnwindSafe(|| job(&Env(env))));
            }
        }
        let name = env.create_string("safer_ffi promise")?;
        let mut raw = null_mut();
        check(
            unsafe { sys::napi_create_threadsafe_function(env.0, null_mut(), null_mut(), name.raw(), 0, 1, null_mut(), None, null_mut(), Some(call_js), &mut raw) },
            "create_threadsafe_function",
        )?;
        Ok(Main(raw))
    }
    pub(crate) fn run(self, job: Job) {
        let data = Box::into_raw(Box::new(job));
        unsafe {
            if sys::napi_call_threadsafe_function(self.0, data.cast(), 1) != 0 {
                drop(Box::from_raw(data));
            }
            sys::napi_release_threadsafe_function(self.0, 0);
        }
    }
}
