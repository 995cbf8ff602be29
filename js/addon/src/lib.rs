//! Exported functions of every argument and result family. Each logs what it received, as text, in LOG,
//! which `takeLog` reads without any of the code under test.
use safer_ffi::js as napi;
use safer_ffi::prelude::*;
use std::fmt::Write;
use std::os::raw::c_void;
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
use std::sync::Mutex;

#[allow(dead_code)]
#[path = "../../../harness/src/alloc.rs"]
mod alloc;

napi::register_exported_functions!();

static LOG: Mutex<String> = Mutex::new(String::new());
static LIVE: AtomicIsize = AtomicIsize::new(0);

fn log(s: &str) {
    let mut l = LOG.lock().unwrap_or_else(|e| e.into_inner());
    if !l.is_empty() {
        l.push(' ');
    }
    l.push_str(s);
}

/// The text of a value; the model in `j01.js` writes the same.
trait Text {
    fn text(&self) -> String;
}
macro_rules! text {($($t:ty, $x:ident => $e:expr;)*) => ($( impl Text for $t { fn text(&self) -> String { let $x = self; $e } } )*)}
macro_rules! text_int {($($t:ty)*) => ($( impl Text for $t { fn text(&self) -> String { self.to_string() } } )*)}
text_int! { u8 u16 u32 u64 usize i8 i16 i32 i64 isize bool }
fn hex(b: &[u8]) -> String {
    let mut s = String::from("x");
    for b in b {
        write!(s, "{b:02x}").unwrap();
    }
    s
}
text! {
    (), _x => "()".into();
    f32, x => if x.is_nan() { "nan".into() } else { format!("s{:08x}", x.to_bits()) };
    f64, x => if x.is_nan() { "nan".into() } else { format!("d{:016x}", x.to_bits()) };
    char_p::Ref<'_>, x => hex(x.to_bytes());
    char_p::Box, x => hex(x.as_ref().to_bytes());
    c_slice::Ref<'_, u8>, x => hex(x);
    c_slice::Box<u8>, x => hex(x);
    Color, x => ["Red", "Green", "Blue"][match x { Color::Red => 0, Color::Green => 1, Color::Blue => 2 }].into();
    Level, x => match x { Level::Low => "Low", Level::Mid => "Mid", Level::High => "High" }.into();
    Plain, x => match x { Plain::A => "A", Plain::B => "B" }.into();
    Point, p => format!("({} {})", p.x.text(), p.y.text());
    Mixed, m => format!("({} {} {} {} {})", m.a.text(), m.b.text(), m.c.text(), m.d.text(), m.e.text());
    Nested, n => format!("({} {} {} {})", n.p.text(), n.m.text(), n.arr.text(), n.n.text());
    Pair<u16, bool>, p => format!("({} {})", p.fst.text(), p.snd.text());
    Wrap, w => w.0.text();
    Foo, f => f.v.text();
}
impl<const N: usize> Text for [u8; N] {
    fn text(&self) -> String { hex(self) }
}
impl<T: Text> Text for Option<T> {
    fn text(&self) -> String { self.as_ref().map_or("none".into(), |x| x.text()) }
}

#[derive_ReprC(js)]
#[repr(u8)]
#[derive(Clone, Copy)]
pub enum Color { Red, Green = 5, Blue }

#[derive_ReprC(js)]
#[repr(i32)]
#[derive(Clone, Copy)]
pub enum Level { Low = -7, Mid, High = 0x7fff_ffff }

#[derive_ReprC(js)]
#[repr(C)]
#[derive(Clone, Copy)]
pub enum Plain { A, B }

#[derive_ReprC(js)]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Point { x: f64, y: f64 }

#[derive_ReprC(js)]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Mixed { a: u8, b: i64, c: bool, d: f32, e: Color }

#[derive_ReprC(js)]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Nested { p: Point, m: Mixed, arr: [u8; 4], n: u32 }

#[derive_ReprC(js)]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Pair<A, B> { fst: A, snd: B }

#[derive_ReprC(js)]
#[repr(transparent)]
#[derive(Clone, Copy)]
pub struct Wrap(u32);

#[derive_ReprC(js, rename = "other_name")]
#[repr(transparent)]
pub struct NamedPtr { p: core::ptr::NonNull<u16>, z: () }

/// opaque, counted
#[derive_ReprC]
#[repr(opaque)]
pub struct Foo { v: i32, extra: Vec<u8> }
impl Foo {
    fn new(v: i32) -> Foo {
        LIVE.fetch_add(1, SeqCst);
        Foo { v, extra: vec![v as u8; 5] }
    }
}
impl Drop for Foo {
    fn drop(&mut self) {
        assert!(self.extra.iter().all(|&b| b == self.v as u8));
        LIVE.fetch_sub(1, SeqCst);
    }
}
#[derive_ReprC]
#[repr(opaque)]
pub struct Bar { _v: u64 }

macro_rules! echo {($($name:ident $T:ty;)*) => ($(
    #[ffi_export(js)]
    fn $name(x: $T) -> $T { log(&x.text()); x }
)*)}
echo! {
    echo_u8 u8; echo_u16 u16; echo_u32 u32; echo_i8 i8; echo_i16 i16; echo_i32 i32;
    echo_u64 u64; echo_i64 i64; echo_usize usize; echo_isize isize; echo_f32 f32; echo_f64 f64; echo_bool bool;
    echo_color Color; echo_level Level; echo_plain Plain;
    echo_point Point; echo_mixed Mixed; echo_nested Nested; echo_pair Pair<u16, bool>; echo_wrap Wrap;
    echo_a1 [u8; 1]; echo_a4 [u8; 4]; echo_a32 [u8; 32];
}

#[ffi_export(js)]
fn ten(a: u8, b: i16, c: u32, d: i64, e: f32, f: f64, g: bool, h: Color, i: [u8; 4], j: Mixed) -> u64 {
    for t in [a.text(), b.text(), c.text(), d.text(), e.text(), f.text(), g.text(), h.text(), i.text(), j.text()] {
        log(&t);
    }
    (a as u64) << 56 | c as u64
}

#[ffi_export(js, rename = "renamedSub")]
fn sub_with_another_name(a: i32, b: i32) -> i32 {
    log(&format!("{a} {b}"));
    a.wrapping_sub(b)
}

#[ffi_export(js)]
fn nothing() {
    log("nothing");
}

// ------------------------------------------------------------------ strings and bytes
#[ffi_export(js)]
fn str_in(a: char_p::Ref<'_>, b: Option<char_p::Ref<'_>>) -> char_p::Box {
    log(&a.text());
    log(&b.text());
    char_p::new(format!("{}{}", a.to_str(), b.map_or("", |b| b.to_str())))
}
#[ffi_export(js)]
fn str_opt(a: Option<char_p::Ref<'_>>) -> Option<char_p::Box> {
    log(&a.text());
    a.map(|a| char_p::new(a.to_str()))
}
#[ffi_export(js)]
fn bytes_in(a: Option<c_slice::Ref<'_, u8>>, b: c_slice::Ref<'_, u8>) -> Option<c_slice::Box<u8>> {
    log(&a.text());
    log(&b.text());
    a.map(|a| [a.as_slice(), b.as_slice()].concat().into_boxed_slice().into())
}
static STATIC_BYTES: [u8; 256] = {
    let mut a = [0; 256];
    let mut i = 0;
    while i < 256 {
        a[i] = i as u8;
        i += 1;
    }
    a
};
#[ffi_export(js)]
fn static_bytes(from: usize, to: usize) -> Option<c_slice::Ref<'static, u8>> {
    STATIC_BYTES.get(from..to).map(Into::into)
}
#[ffi_export(js)]
fn static_str(i: u8) -> Option<char_p::Ref<'static>> {
    [None, Some(c!("")), Some(c!("été €")), Some(c!("plain ascii, long enough to be on the heap if anything is"))]
        .get(i as usize).copied().flatten().map(|s| s)
}
#[ffi_export(js)]
fn out_bool(b: Out<'_, bool>, v: bool) { b.write(v); }
#[ffi_export(js)]
fn out_u64(o: &mut u64, v: u64) { *o = v; }
#[ffi_export(js)]
fn out_bytes(o: &mut Option<c_slice::Box<u8>>, v: c_slice::Ref<'_, u8>, some: bool) {
    *o = some.then(|| v.to_vec().into_boxed_slice().into());
}
#[ffi_export(js)]
fn out_strings(o: &mut Option<repr_c::Vec<char_p::Box>>, v: char_p::Ref<'_>) {
    let mut xs: Vec<char_p::Box> = v.to_str().split(',').map(|s| char_p::new(s)).collect();
    xs.reserve(3);
    *o = Some(xs.into());
}

// ------------------------------------------------------------------ pointers
#[ffi_export(js)]
fn foo_new(v: i32) -> repr_c::Box<Foo> { Box::new(Foo::new(v)).into() }
#[ffi_export(js)]
fn foo_maybe(v: i32, some: bool) -> Option<repr_c::Box<Foo>> { some.then(|| Box::new(Foo::new(v)).into()) }
#[ffi_export(js)]
fn foo_read(f: &Foo) -> i32 { f.v }
#[ffi_export(js)]
fn foo_read_opt(f: Option<&Foo>) -> i32 { f.map_or(-1, |f| f.v) }
#[ffi_export(js)]
fn foo_set(f: &mut Foo, v: i32) -> i32 {
    f.extra.fill(v as u8);
    std::mem::replace(&mut f.v, v)
}
#[ffi_export(js)]
fn foo_free(f: Option<repr_c::Box<Foo>>) -> bool { f.is_some() }
#[ffi_export(js)]
fn foo_consume(f: repr_c::Box<Foo>) -> i32 { f.v }
#[ffi_export(js)]
fn foo_self<'a>(f: &'a Foo) -> &'a Foo { f }
#[ffi_export(js)]
fn bar_read(f: &Bar) -> u64 { f._v }
#[ffi_export(js)]
fn named_ptr(addr: usize) -> NamedPtr { NamedPtr { p: core::ptr::NonNull::new(addr as *mut u16).unwrap(), z: () } }
#[ffi_export(js)]
fn named_ptr_in(p: NamedPtr) -> usize { p.p.as_ptr() as usize }
/// borrows something which lives for ever
fn forever<T: Default>() -> &'static mut T { alloc::exempt(|| Box::leak(Box::default())) }
#[ffi_export(js)]
fn cell_new(v: u32) -> &'static mut u32 {
    let c = forever();
    *c = v;
    c
}
#[ffi_export(js)]
fn cell_get(c: &u32) -> u32 { *c }
#[ffi_export(js)]
fn cell_set(c: &mut u32, v: u32) { *c = v; }
#[ffi_export(js)]
fn cells_new(v: u32) -> &'static mut Option<&'static mut u32> {
    let c = forever::<Option<&'static mut u32>>();
    *c = Some(cell_new_(v));
    c
}
fn cell_new_(v: u32) -> &'static mut u32 {
    let c = forever();
    *c = v;
    c
}
#[ffi_export(js)]
fn cells_get(c: &Option<&'static mut u32>) -> u32 { **c.as_ref().unwrap() }
#[ffi_export(js)]
fn cells_same(c: &'static Option<&'static mut u32>) -> &'static Option<&'static mut u32> { c }
#[ffi_export(js)]
fn cells_view(c: &'static Option<&'static mut u32>) -> c_slice::Ref<'static, Option<&'static mut u32>> { std::slice::from_ref(c).into() }
#[ffi_export(js)]
fn cells_sum(c: c_slice::Ref<'_, Option<&'static mut u32>>) -> u64 { c.iter().map(|x| **x.as_ref().unwrap() as u64).sum() }

// ------------------------------------------------------------------ promises
#[ffi_export(js(async_worker))]
fn worker_add(a: u64, b: i32, c: bool) -> u64 {
    a.wrapping_add(b as u64).wrapping_mul(if c { 1 } else { 3 })
}
#[ffi_export(js(async_worker), rename = "workerPoint")]
fn worker_point(p: Point) -> Point { Point { x: p.y, y: p.x } }

#[ffi_export(js, executor = ::futures::executor::block_on)]
async fn fut_bytes(bytes: c_slice::Ref<'_, u8>, k: u32) -> c_slice::Box<u8> {
    let owned = bytes.to_vec();
    ffi_await!(async move {
        futures::future::poll_fn({
            let mut n = k % 4;
            move |cx| {
                if n == 0 {
                    return std::task::Poll::Ready(());
                }
                n -= 1;
                let w = cx.waker().clone();
                std::thread::spawn(move || w.wake());
                std::task::Poll::Pending
            }
        }).await;
        let mut owned = owned;
        owned.reverse();
        owned.into_boxed_slice().into()
    })
}
#[ffi_export(js, rename = "futRenamed", executor = ::futures::executor::block_on)]
async fn fut_mixed(m: Mixed, x: i8) -> Mixed {
    ffi_await!(async move { Mixed { b: m.b.wrapping_add(x as i64), ..m } })
}

// ------------------------------------------------------------------ closures
/// Calls the closure `times` times on this or on another thread; logs the results.
struct AssertSend<T>(T);
unsafe impl<T> Send for AssertSend<T> {}
impl<T> AssertSend<T> {
    fn get(self) -> T { self.0 }
}

macro_rules! closures {($(
    $name:ident ($($a:ident : $A:ty = $_js:ident),*) -> $R:ty;
)*) => ($(
    const _: () = {
        type C = napi::Closure<fn($($A),*) -> $R>;
        /// (callback, own thread?, keep Node waiting, args…)
        #[napi::derive::js_export(js_name = $name)]
        fn f(cb: <C as napi::ReprNapi>::NapiValue, threaded: napi::JsBoolean, $($a: <safer_ffi::layout::CLayoutOf<$A> as napi::ReprNapi>::NapiValue),*) -> napi::Result<napi::JsUnknown> {
            let ctx = napi::derive::__js_ctx!();
            $( let $a: safer_ffi::layout::CLayoutOf<$A> = napi::ReprNapi::from_napi_value(ctx.env, $a)?; )*
            let mut cb: C = napi::ReprNapi::from_napi_value(ctx.env, cb)?;
            cb.make_nodejs_wait_for_this_to_be_dropped(true)?;
            let raw = AssertSend((std::sync::Arc::new(cb).into_raw_parts(), $($a,)*));
            let run = move || unsafe {
                let (raw, $($a,)*) = raw.get();
                (raw.retain)(raw.data);
                let r = (raw.call)(raw.data, $($a),*);
                if std::any::TypeId::of::<$R>() == std::any::TypeId::of::<()>() {
                    log("()"); // a `void` result carries nothing to convert
                } else {
                    let r: $R = safer_ffi::layout::from_raw_unchecked(r);
                    log(&r.text());
                }
                (raw.release)(raw.data);
                raw
            };
            if threaded.get_value()? {
                std::thread::spawn(move || {
                    let raw = run();
                    done(AssertSend((raw.data, raw.release)));
                });
            } else {
                let raw = run();
                unsafe { (raw.release)(raw.data) };
            }
            ctx.env.get_undefined().map(|u| u.into_unknown())
        }
    };
)*)}
static DONE: Mutex<Vec<AssertSend<(*mut c_void, unsafe extern "C" fn(*mut c_void))>>> = Mutex::new(Vec::new());
fn done(x: AssertSend<(*mut c_void, unsafe extern "C" fn(*mut c_void))>) {
    alloc::exempt(|| DONE.lock().unwrap().push(x));
}
/// The closures that were called by other threads are released by Node's: napi_delete_reference demands it.
#[napi::derive::js_export(js_name = reap)]
fn reap() -> napi::Result<napi::JsNumber> {
    let ctx = napi::derive::__js_ctx!();
    let xs = alloc::exempt(|| std::mem::take(&mut *DONE.lock().unwrap()));
    let n = xs.len();
    for x in xs {
        let (data, release) = x.get();
        unsafe { release(data) };
    }
    ctx.env.create_uint32(n as u32)
}
closures! {
    cb0 () -> i32;
    cb1 (a: u8 = A) -> u8;
    cb2 (a: i64 = A, b: bool = B) -> i64;
    cb3 (a: f64 = A, b: u16 = B, c: Color = C) -> f64;
    cb4 (a: u64 = A, b: f32 = B, c: Point = C, d: i8 = D) -> u64;
    cb5 (a: i32 = A, b: Mixed = B, c: bool = C, d: isize = D, e: u32 = E) -> Color;
    cb6 (a: i16 = A, b: u8 = B, c: f64 = C, d: bool = D, e: usize = E, f: [u8; 4] = F) -> bool;
    cbv (a: u32 = A, b: u32 = B) -> ();
    cbp (a: Point = A) -> Point;
}

#[napi::derive::js_export(js_name = cbDetached)]
fn cb_detached(cb: <napi::Closure<fn(u32, f64), napi::SyncKind::Detached> as napi::ReprNapi>::NapiValue, n: napi::JsNumber, y: napi::JsNumber) -> napi::Result<napi::JsUndefined> {
    let ctx = napi::derive::__js_ctx!();
    let n: u32 = n.try_into()?;
    let y: f64 = y.try_into()?;
    let mut cb: napi::Closure<fn(u32, f64), napi::SyncKind::Detached> = napi::ReprNapi::from_napi_value(ctx.env, cb)?;
    cb.make_nodejs_wait_for_this_to_be_dropped(true)?;
    let (data, call) = cb.as_raw_parts();
    for i in 0..n {
        unsafe { call(data, i, y) };
    }
    log("detached");
    ctx.env.get_undefined()
}

// ------------------------------------------------------------------ closures that are kept
type K = napi::Closure<fn(u32, i64) -> i64>;
struct Kept {
    data: *mut c_void,
    call: unsafe extern "C" fn(*mut c_void, u32, i64) -> i64,
    retain: unsafe extern "C" fn(*mut c_void),
    release: unsafe extern "C" fn(*mut c_void),
}
static KEPT: Mutex<Vec<AssertSend<Kept>>> = Mutex::new(Vec::new());
fn kept<R>(i: napi::JsNumber, f: impl FnOnce(&Kept) -> R) -> napi::Result<R> {
    let i: u32 = i.try_into()?;
    let k = {
        let l = KEPT.lock().unwrap();
        let Kept { data, call, retain, release } = l[i as usize].0;
        Kept { data, call, retain, release }
    };
    Ok(f(&k))
}
/// `waits`: whether Node is to wait, as many times as it is decided (a character each, `w` or `g`).
#[napi::derive::js_export(js_name = keepNew)]
fn keep_new(cb: <K as napi::ReprNapi>::NapiValue, waits: napi::JsString) -> napi::Result<napi::JsNumber> {
    let ctx = napi::derive::__js_ctx!();
    let mut cb: K = napi::ReprNapi::from_napi_value(ctx.env, cb)?;
    for w in waits.into_utf8()?.as_str()?.chars() {
        cb.make_nodejs_wait_for_this_to_be_dropped(w == 'w')?;
    }
    let p = std::sync::Arc::new(cb).into_raw_parts();
    let mut l = KEPT.lock().unwrap();
    l.push(AssertSend(Kept { data: p.data, call: p.call, retain: p.retain, release: p.release }));
    ctx.env.create_uint32(l.len() as u32 - 1)
}
#[napi::derive::js_export(js_name = keepRetain)]
fn keep_retain(i: napi::JsNumber) -> napi::Result<napi::JsUndefined> {
    let ctx = napi::derive::__js_ctx!();
    kept(i, |k| unsafe { (k.retain)(k.data) })?;
    ctx.env.get_undefined()
}
#[napi::derive::js_export(js_name = keepRelease)]
fn keep_release(i: napi::JsNumber) -> napi::Result<napi::JsUndefined> {
    let ctx = napi::derive::__js_ctx!();
    kept(i, |k| unsafe { (k.release)(k.data) })?;
    ctx.env.get_undefined()
}
#[napi::derive::js_export(js_name = keepCall)]
fn keep_call(i: napi::JsNumber, a: napi::JsNumber, b: <i64 as napi::ReprNapi>::NapiValue) -> napi::Result<<i64 as napi::ReprNapi>::NapiValue> {
    let ctx = napi::derive::__js_ctx!();
    let a: u32 = napi::ReprNapi::from_napi_value(ctx.env, a)?;
    let b: i64 = napi::ReprNapi::from_napi_value(ctx.env, b)?;
    let r = kept(i, |k| unsafe { (k.call)(k.data, a, b) })?;
    napi::ReprNapi::to_napi_value(r, ctx.env)
}
/// `threads` threads, each of which holds a count and makes `calls` calls; `reap` gives the counts back.
#[napi::derive::js_export(js_name = keepThreads)]
fn keep_threads(i: napi::JsNumber, threads: napi::JsNumber, calls: napi::JsNumber, base: <i64 as napi::ReprNapi>::NapiValue) -> napi::Result<napi::JsUndefined> {
    let ctx = napi::derive::__js_ctx!();
    let (threads, calls): (u32, u32) = (threads.try_into()?, calls.try_into()?);
    let base: i64 = napi::ReprNapi::from_napi_value(ctx.env, base)?;
    kept(i, |k| {
        for t in 0..threads {
            unsafe { (k.retain)(k.data) };
            let k = AssertSend(Kept { ..*k });
            std::thread::spawn(move || {
                let k = k.get();
                for c in 0..calls {
                    let (a, b) = (t * 1000 + c, base.wrapping_add(c as i64));
                    let r = unsafe { (k.call)(k.data, a, b) };
                    if r != b.wrapping_mul(3) ^ a as i64 {
                        log(&format!("({a}, {b}) gave {r}"));
                    }
                }
                done(AssertSend((k.data, k.release)));
            });
        }
    })?;
    ctx.env.get_undefined()
}

/// A thread that calls the callback after a while (its count is kept until Node's thread releases it).
#[napi::derive::js_export(js_name = keepLater)]
fn keep_later(i: napi::JsNumber, ms: napi::JsNumber, calls: napi::JsNumber) -> napi::Result<napi::JsUndefined> {
    let ctx = napi::derive::__js_ctx!();
    let (ms, calls): (u32, u32) = (ms.try_into()?, calls.try_into()?);
    kept(i, |k| {
        let k = AssertSend(Kept { ..*k });
        std::thread::spawn(move || {
            let k = k.get();
            for c in 0..calls {
                std::thread::sleep(std::time::Duration::from_millis(ms as u64));
                unsafe { (k.call)(k.data, c, 5) };
            }
        });
    })?;
    ctx.env.get_undefined()
}

// ------------------------------------------------------------------ for the checker
#[napi::derive::js_export(js_name = takeLog)]
fn take_log() -> napi::Result<napi::JsString> {
    let ctx = napi::derive::__js_ctx!();
    ctx.env.create_string(&std::mem::take(&mut *LOG.lock().unwrap_or_else(|e| e.into_inner())))
}
#[napi::derive::js_export(js_name = liveObjects)]
fn live_objects() -> napi::Result<napi::JsNumber> {
    let ctx = napi::derive::__js_ctx!();
    ctx.env.create_int32(LIVE.load(SeqCst) as i32)
}
#[napi::derive::js_export(js_name = allocated)]
fn allocated() -> napi::Result<napi::JsNumber> {
    let ctx = napi::derive::__js_ctx!();
    alloc::check_quarantine(64);
    ctx.env.create_int32(alloc::live_tracked() as i32)
}
#[napi::derive::js_export(js_name = track)]
fn track(on: napi::JsBoolean) -> napi::Result<napi::JsUndefined> {
    let ctx = napi::derive::__js_ctx!();
    static WARM: std::sync::Once = std::sync::Once::new();
    // what std allocates once, at the first panic, is nobody's leak
    WARM.call_once(|| drop(std::panic::catch_unwind(|| panic!("warm-up"))));
    alloc::set_tracking(on.get_value()?);
    ctx.env.get_undefined()
}
