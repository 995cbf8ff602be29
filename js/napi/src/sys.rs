//! The part of Node-API that is used here (js_native_api.h, node_api.h).
#![allow(non_camel_case_types)]
use std::os::raw::{c_char, c_int, c_void};

macro_rules! ptrs {($($n:ident $p:ident,)*) => ($( #[repr(C)] #[derive(Debug)] pub struct $p { _p: [u8; 0] } pub type $n = *mut $p; )*)}
ptrs! {
    napi_env napi_env__, napi_value napi_value__, napi_ref napi_ref__, napi_callback_info napi_callback_info__,
    napi_deferred napi_deferred__, napi_threadsafe_function napi_threadsafe_function__,
    napi_handle_scope napi_handle_scope__,
}
pub type napi_status = c_int;
pub type napi_callback = unsafe extern "C" fn(napi_env, napi_callback_info) -> napi_value;
pub type napi_finalize = unsafe extern "C" fn(napi_env, *mut c_void, *mut c_void);
pub type napi_threadsafe_function_call_js = unsafe extern "C" fn(napi_env, napi_value, *mut c_void, *mut c_void);

extern "C" {
    pub fn napi_get_undefined(env: napi_env, result: *mut napi_value) -> napi_status;
    pub fn napi_get_null(env: napi_env, result: *mut napi_value) -> napi_status;
    pub fn napi_get_boolean(env: napi_env, value: bool, result: *mut napi_value) -> napi_status;
    pub fn napi_create_object(env: napi_env, result: *mut napi_value) -> napi_status;
    pub fn napi_create_array(env: napi_env, result: *mut napi_value) -> napi_status;
    pub fn napi_create_double(env: napi_env, value: f64, result: *mut napi_value) -> napi_status;
    pub fn napi_create_int32(env: napi_env, value: i32, result: *mut napi_value) -> napi_status;
    pub fn napi_create_uint32(env: napi_env, value: u32, result: *mut napi_value) -> napi_status;
    pub fn napi_create_int64(env: napi_env, value: i64, result: *mut napi_value) -> napi_status;
    pub fn napi_create_bigint_words(env: napi_env, sign: c_int, n: usize, words: *const u64, result: *mut napi_value) -> napi_status;
    pub fn napi_create_string_utf8(env: napi_env, s: *const c_char, len: usize, result: *mut napi_value) -> napi_status;
    pub fn napi_create_function(env: napi_env, name: *const c_char, len: usize, cb: napi_callback, data: *mut c_void, result: *mut napi_value) -> napi_status;
    pub fn napi_create_error(env: napi_env, code: napi_value, msg: napi_value, result: *mut napi_value) -> napi_status;
    pub fn napi_create_buffer_copy(env: napi_env, len: usize, data: *const c_void, out: *mut *mut c_void, result: *mut napi_value) -> napi_status;
    pub fn napi_typeof(env: napi_env, value: napi_value, result: *mut c_int) -> napi_status;
    pub fn napi_get_value_double(env: napi_env, value: napi_value, result: *mut f64) -> napi_status;
    pub fn napi_get_value_int32(env: napi_env, value: napi_value, result: *mut i32) -> napi_status;
    pub fn napi_get_value_uint32(env: napi_env, value: napi_value, result: *mut u32) -> napi_status;
    pub fn napi_get_value_int64(env: napi_env, value: napi_value, result: *mut i64) -> napi_status;
    pub fn napi_get_value_bool(env: napi_env, value: napi_value, result: *mut bool) -> napi_status;
    pub fn napi_get_value_bigint_int64(env: napi_env, value: napi_value, result: *mut i64, lossless: *mut bool) -> napi_status;
    pub fn napi_get_value_bigint_uint64(env: napi_env, value: napi_value, result: *mut u64, lossless: *mut bool) -> napi_status;
    pub fn napi_get_value_string_utf8(env: napi_env, value: napi_value, buf: *mut c_char, size: usize, result: *mut usize) -> napi_status;
    pub fn napi_set_named_property(env: napi_env, obj: napi_value, name: *const c_char, value: napi_value) -> napi_status;
    pub fn napi_get_named_property(env: napi_env, obj: napi_value, name: *const c_char, result: *mut napi_value) -> napi_status;
    pub fn napi_call_function(env: napi_env, recv: napi_value, f: napi_value, n: usize, args: *const napi_value, result: *mut napi_value) -> napi_status;
    pub fn napi_get_global(env: napi_env, result: *mut napi_value) -> napi_status;
    pub fn napi_get_cb_info(env: napi_env, info: napi_callback_info, argc: *mut usize, argv: *mut napi_value, this: *mut napi_value, data: *mut *mut c_void) -> napi_status;
    pub fn napi_throw(env: napi_env, error: napi_value) -> napi_status;
    pub fn napi_throw_error(env: napi_env, code: *const c_char, msg: *const c_char) -> napi_status;
    pub fn napi_is_exception_pending(env: napi_env, result: *mut bool) -> napi_status;
    pub fn napi_get_and_clear_last_exception(env: napi_env, result: *mut napi_value) -> napi_status;
    pub fn napi_is_buffer(env: napi_env, value: napi_value, result: *mut bool) -> napi_status;
    pub fn napi_get_buffer_info(env: napi_env, value: napi_value, data: *mut *mut c_void, len: *mut usize) -> napi_status;
    pub fn napi_create_reference(env: napi_env, value: napi_value, count: u32, result: *mut napi_ref) -> napi_status;
    pub fn napi_delete_reference(env: napi_env, r: napi_ref) -> napi_status;
    pub fn napi_get_reference_value(env: napi_env, r: napi_ref, result: *mut napi_value) -> napi_status;
    pub fn napi_add_finalizer(env: napi_env, obj: napi_value, data: *mut c_void, cb: napi_finalize, hint: *mut c_void, result: *mut napi_ref) -> napi_status;
    pub fn napi_create_promise(env: napi_env, deferred: *mut napi_deferred, promise: *mut napi_value) -> napi_status;
    pub fn napi_resolve_deferred(env: napi_env, deferred: napi_deferred, value: napi_value) -> napi_status;
    pub fn napi_reject_deferred(env: napi_env, deferred: napi_deferred, value: napi_value) -> napi_status;
    pub fn napi_create_threadsafe_function(env: napi_env, func: napi_value, res: napi_value, name: napi_value, max_queue: usize, threads: usize,
        fin_data: *mut c_void, fin: Option<napi_finalize>, ctx: *mut c_void, call_js: Option<napi_threadsafe_function_call_js>,
        result: *mut napi_threadsafe_function) -> napi_status;
    pub fn napi_call_threadsafe_function(f: napi_threadsafe_function, data: *mut c_void, mode: c_int) -> napi_status;
    pub fn napi_release_threadsafe_function(f: napi_threadsafe_function, mode: c_int) -> napi_status;
    pub fn napi_ref_threadsafe_function(env: napi_env, f: napi_threadsafe_function) -> napi_status;
    pub fn napi_unref_threadsafe_function(env: napi_env, f: napi_threadsafe_function) -> napi_status;
    pub fn napi_fatal_exception(env: napi_env, err: napi_value) -> napi_status;
}
