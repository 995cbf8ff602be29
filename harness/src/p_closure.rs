//! C01, C02: FFI closures. Model = a direct Rust call of the same body, and a reference count.
use crate::alloc::exempt;
use crate::engine::*;
use crate::vals::*;
use crate::{check, check_eq};
use safer_ffi::closure::*;
use safer_ffi::prelude::*;
use std::mem;
use std::ptr::NonNull;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------ captured environments

static DROPS: AtomicI64 = AtomicI64::new(0);
static LIVE: AtomicI64 = AtomicI64::new(0);

trait Payload: Send + Sync + 'static {
    fn make() -> Self;
    fn ok(&self) -> bool;
}
impl Payload for () {
    fn make() {}
    fn ok(&self) -> bool {
        true
    }
}
impl Payload for [u8; 3] {
    fn make() -> Self {
        *b"abc"
    }
    fn ok(&self) -> bool {
        self == b"abc"
    }
}
impl Payload for [u64; 9] {
    fn make() -> Self {
        [0x0123_4567_89ab_cdef; 9]
    }
    fn ok(&self) -> bool {
        self == &[0x0123_4567_89ab_cdef; 9]
    }
}
#[repr(align(64))]
struct Al([u8; 64]);
impl Payload for Al {
    fn make() -> Self {
        Al([0x5a; 64])
    }
    fn ok(&self) -> bool {
        self as *const _ as usize % 64 == 0 && self.0 == [0x5a; 64]
    }
}
/// Counts its drops; no field of its own unless `X` has some.
struct Env<X: Payload>(X);
impl<X: Payload> Env<X> {
    fn new() -> Self {
        LIVE.fetch_add(1, SeqCst);
        Env(X::make())
    }
    fn touch(&self) {
        check!(self.0.ok(), "environment-corrupted", "the captured environment changed under the closure");
        check!(LIVE.load(SeqCst) > 0, "called-after-drop", "the closure runs although its environment was dropped");
    }
}
impl<X: Payload> Drop for Env<X> {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, SeqCst);
        DROPS.fetch_add(1, SeqCst);
    }
}

#[repr(C)]
struct RawBox<F> {
    env: NonNull<()>,
    call: Option<F>,
    free: Option<unsafe extern "C" fn(NonNull<()>)>,
}
#[repr(C)]
struct RawArc<F> {
    env: NonNull<()>,
    call: F,
    release: unsafe extern "C" fn(NonNull<()>),
    retain: Option<unsafe extern "C" fn(NonNull<()>)>,
}
#[repr(C)]
struct RawRef<F> {
    env: NonNull<()>,
    call: F,
}

thread_local!(static SEEN: std::cell::RefCell<Vec<Vec<u64>>> = const { std::cell::RefCell::new(vec![]) });
fn saw(v: &[u64]) {
    exempt(|| SEEN.with(|s| s.borrow_mut().push(v.to_vec())))
}
fn take_seen() -> Vec<Vec<u64>> {
    exempt(|| SEEN.with(|s| mem::take(&mut *s.borrow_mut())))
}

macro_rules! arity {
    ($name:ident, $X:ty, $R:ty, $Box:ident, $Arc:ident, $Ref:ident, ($($a:ident : $A:ty),*)) => {
        #[allow(unused_variables, unused_mut)]
        fn $name(g: &mut Gen) {
            type R = $R;
            type Raw = unsafe extern "C" fn(NonNull<()> $(, $A)*) -> R;
            LIVE.store(0, SeqCst);
            DROPS.store(0, SeqCst);
            take_seen();
            fn body(st: u64 $(, $a: $A)*) -> u64 {
                let encs: &[u64] = &[$($a.enc()),*];
                saw(encs);
                encs.iter().fold(mix(st, 3), |x, &y| mix(x, y))
            }
            let kind = g.below(5);
            let calls = g.range(0, 5);
            g.note(|| format!("{} {}: ({}) -> {}, {calls} call(s)", ["Box", "Arc", "Ref", "Ref to plain data", "Box of plain data"][kind as usize], stringify!($name), stringify!($($A),*), stringify!($R)));
            let start = g.below(1 << 20);
            let mut model = start;
            // one call; `$go` is given the arguments
            macro_rules! calls { ($direct:expr, $raw:expr) => {
                for _ in 0..calls {
                    $( let $a = g.u64(); )*
                    let want: &[u64] = &[$(<$A>::gen($a).enc()),*];
                    model = want.iter().fold(mix(model, 3), |x, &y| mix(x, y));
                    let through_raw = g.bool();
                    let r: R = if through_raw { $raw($(<$A>::gen($a)),*) } else { $direct($(<$A>::gen($a)),*) };
                    let seen = take_seen();
                    check_eq!(seen.len(), 1usize, "call-count");
                    check_eq!(seen[0], want, "arguments");
                    exempt(|| drop(seen));
                    check_eq!(r.enc(), R::gen(model).enc(), "result");
                }
            }}
            match kind {
                0 => {
                    let env = Env::<$X>::new();
                    let mut st = start;
                    let f = Box::new(move |$($a: $A),*| -> R { env.touch(); st = body(st $(, $a)*); R::gen(st) });
                    let mut b: $Box<R $(, $A)*> = if g.bool() { f.into() } else { $Box::new(f) };
                    let raw: RawBox<Raw> = unsafe { mem::transmute_copy(&b) };
                    check!(raw.call.is_some() && raw.free.is_some(), "null-fn", "null function pointer in a fresh closure");
                    calls!(|$($a: $A),*| b.call($($a),*), |$($a: $A),*| unsafe { raw.call.unwrap()(raw.env $(, $a)*) });
                    check_eq!(DROPS.load(SeqCst), 0, "env-dropped-early");
                    if g.bool() {
                        drop(b);
                    } else {
                        mem::forget(b);
                        unsafe { raw.free.unwrap()(raw.env) };
                    }
                    check_eq!(DROPS.load(SeqCst), 1, "env-drops");
                }
                1 => {
                    let env = Env::<$X>::new();
                    let st = AtomicU64::new(start);
                    let f = Arc::new(move |$($a: $A),*| -> R {
                        env.touch();
                        let n = body(st.load(SeqCst) $(, $a)*);
                        st.store(n, SeqCst);
                        R::gen(n)
                    });
                    let keep = g.bool().then(|| f.clone());
                    let mut b: $Arc<R $(, $A)*> = if g.bool() { f.into() } else { $Arc::new(f) };
                    let mut c = b.clone();
                    let raw: RawArc<Raw> = unsafe { mem::transmute_copy(&b) };
                    check!(raw.retain.is_some(), "null-fn", "null function pointer in a fresh closure");
                    let mut flip = false;
                    calls!(|$($a: $A),*| { flip = !flip; if flip { b.call($($a),*) } else { c.call($($a),*) } }, |$($a: $A),*| unsafe { (raw.call)(raw.env $(, $a)*) });
                    drop(b);
                    check_eq!(DROPS.load(SeqCst), 0, "env-dropped-early");
                    calls!(|$($a: $A),*| c.call($($a),*), |$($a: $A),*| unsafe { (raw.call)(raw.env $(, $a)*) });
                    if g.bool() { drop(c) } else { mem::forget(c); unsafe { (raw.release)(raw.env) } }
                    if let Some(k) = keep {
                        check_eq!(Arc::strong_count(&k), 1usize, "strong-count");
                        check_eq!(DROPS.load(SeqCst), 0, "env-dropped-early");
                        drop(k);
                    }
                    check_eq!(DROPS.load(SeqCst), 1, "env-drops");
                }
                // closures that own their state, which has no destructor
                3 => {
                    let mut st = start;
                    let pad: [u64; 3] = [start, !start, start ^ 5];
                    let mut f = move |$($a: $A),*| -> R {
                        check!(pad == [start, !start, start ^ 5], "env-corrupt", "the environment is corrupt");
                        st = body(st $(, $a)*);
                        R::gen(st)
                    };
                    for _ in 0..g.range(1, 2) {
                        let mut b: $Ref<'_, R $(, $A)*> = $Ref::new(&mut f);
                        let raw: RawRef<Raw> = unsafe { mem::transmute_copy(&b) };
                        calls!(|$($a: $A),*| b.call($($a),*), |$($a: $A),*| unsafe { (raw.call)(raw.env $(, $a)*) });
                    }
                    calls!(|$($a: $A),*| f($($a),*), |$($a: $A),*| f($($a),*));
                }
                4 => {
                    let mut st = start;
                    let pad: [u16; 5] = [start as u16; 5];
                    let mut b: $Box<R $(, $A)*> = $Box::new(Box::new(move |$($a: $A),*| -> R {
                        check!(pad == [start as u16; 5], "env-corrupt", "the environment is corrupt");
                        st = body(st $(, $a)*);
                        R::gen(st)
                    }));
                    let raw: RawBox<Raw> = unsafe { mem::transmute_copy(&b) };
                    calls!(|$($a: $A),*| b.call($($a),*), |$($a: $A),*| unsafe { raw.call.unwrap()(raw.env $(, $a)*) });
                }
                _ => {
                    let env = Env::<$X>::new();
                    let mut st = start;
                    let mut f = |$($a: $A),*| -> R { env.touch(); st = body(st $(, $a)*); R::gen(st) };
                    {
                        let mut b: $Ref<'_, R $(, $A)*> = $Ref::new(&mut f);
                        let raw: RawRef<Raw> = unsafe { mem::transmute_copy(&b) };
                        calls!(|$($a: $A),*| b.call($($a),*), |$($a: $A),*| unsafe { (raw.call)(raw.env $(, $a)*) });
                        drop(b);
                        check_eq!(DROPS.load(SeqCst), 0, "borrowed-env-dropped");
                    }
                    calls!(|$($a: $A),*| f($($a),*), |$($a: $A),*| f($($a),*));
                    drop(f);
                    check_eq!(st, model, "captured-state");
                    check_eq!(DROPS.load(SeqCst), 0, "borrowed-env-dropped");
                    drop(env);
                }
            }
            check_eq!(LIVE.load(SeqCst), 0, "env-live");
            if calls > 0 {
                g.nontrivial();
            }
        }
    };
}

macro_rules! arities {
    ($m:ident; $X:ty, $R:ty; $t1:ty, $t2:ty, $t3:ty, $t4:ty, $t5:ty, $t6:ty, $t7:ty, $t8:ty, $t9:ty) => {
        mod $m {
            use super::*;
            arity!(a0, $X, $R, BoxDynFnMut0, ArcDynFn0, RefDynFnMut0, ());
            arity!(a1, $X, $R, BoxDynFnMut1, ArcDynFn1, RefDynFnMut1, (x1: $t1));
            arity!(a2, $X, $R, BoxDynFnMut2, ArcDynFn2, RefDynFnMut2, (x1: $t1, x2: $t2));
            arity!(a3, $X, $R, BoxDynFnMut3, ArcDynFn3, RefDynFnMut3, (x1: $t1, x2: $t2, x3: $t3));
            arity!(a4, $X, $R, BoxDynFnMut4, ArcDynFn4, RefDynFnMut4, (x1: $t1, x2: $t2, x3: $t3, x4: $t4));
            arity!(a5, $X, $R, BoxDynFnMut5, ArcDynFn5, RefDynFnMut5, (x1: $t1, x2: $t2, x3: $t3, x4: $t4, x5: $t5));
            arity!(a6, $X, $R, BoxDynFnMut6, ArcDynFn6, RefDynFnMut6, (x1: $t1, x2: $t2, x3: $t3, x4: $t4, x5: $t5, x6: $t6));
            arity!(a7, $X, $R, BoxDynFnMut7, ArcDynFn7, RefDynFnMut7, (x1: $t1, x2: $t2, x3: $t3, x4: $t4, x5: $t5, x6: $t6, x7: $t7));
            arity!(a8, $X, $R, BoxDynFnMut8, ArcDynFn8, RefDynFnMut8, (x1: $t1, x2: $t2, x3: $t3, x4: $t4, x5: $t5, x6: $t6, x7: $t7, x8: $t8));
            arity!(a9, $X, $R, BoxDynFnMut9, ArcDynFn9, RefDynFnMut9, (x1: $t1, x2: $t2, x3: $t3, x4: $t4, x5: $t5, x6: $t6, x7: $t7, x8: $t8, x9: $t9));
            pub const ALL: [fn(&mut Gen); 10] = [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9];
        }
    };
}
type S = repr_c::String;
type V = repr_c::Vec<u16>;
type O = Option<repr_c::Box<u32>>;
arities!(m0; (), u64; u64, u64, u64, u64, u64, u64, u64, u64, u64);
arities!(m1; [u8; 3], Big; u8, Big, f64, i16, S, bool, Pair, *const u16, Mixed);
arities!(m2; Al, (); f64, f32, Mixed, u16, i64, Colour, Big, S, u8);
arities!(m3; [u64; 9], S; S, V, O, Big, i8, f64, isize, u32, bool);
arities!(m4; (), f64; Big, Big, u8, Big, f64, f64, f64, Mixed, f64);
arities!(m5; Al, V; bool, Colour, O, *const u16, Pair, usize, i32, f32, V);
arities!(m6; [u8; 3], bool; i32, u8, u16, i8, bool, u8, i16, u32, u8);
arities!(m7; [u64; 9], Huge; Huge, u8, Huge, f64, Big, Huge, u16, S, Huge);

fn calls(g: &mut Gen) {
    let m = [m0::ALL, m1::ALL, m2::ALL, m3::ALL, m4::ALL, m5::ALL, m6::ALL, m7::ALL];
    let i = g.us(m.len());
    let n = g.us(10);
    m[i][n](g)
}

// ------------------------------------------------------------ lifetimes (C02)

/// What is observable of an environment.
#[derive(Default)]
struct Ctr {
    dead: AtomicBool,
    drops: AtomicI64,
    calls: AtomicI64,
}
impl Ctr {
    fn reset(&self) {
        self.dead.store(false, SeqCst);
        self.drops.store(0, SeqCst);
        self.calls.store(0, SeqCst);
    }
    fn dropped(&self) {
        self.dead.store(true, SeqCst);
        self.drops.fetch_add(1, SeqCst);
    }
}
trait Environ: Send + Sync + 'static {
    fn ctr(&self) -> &Ctr;
    fn len(&self) -> u64;
    fn hit(&self) {
        check!(!self.ctr().dead.load(SeqCst), "called-after-drop", "closure ran on a dropped environment");
        self.ctr().calls.fetch_add(1, SeqCst);
    }
}
struct Owner {
    ctr: Arc<Ctr>,
    payload: Vec<u8>,
}
impl Environ for Owner {
    fn ctr(&self) -> &Ctr {
        &self.ctr
    }
    fn len(&self) -> u64 {
        self.payload.len() as u64
    }
}
impl Drop for Owner {
    fn drop(&mut self) {
        self.ctr.dropped()
    }
}
/// An over-aligned environment.
#[repr(align(64))]
struct Aligned(Owner, [u8; 70]);
impl Environ for Aligned {
    fn ctr(&self) -> &Ctr {
        check!(self as *const Self as usize % 64 == 0 && self.1[69] == 69, "env-misplaced", "the environment is not where it should be");
        &self.0.ctr
    }
    fn len(&self) -> u64 {
        self.0.len()
    }
}
/// A zero-sized environment with a destructor; at most one is made per slot and history.
const SLOTS: usize = 3;
const NEW: Ctr = Ctr { dead: AtomicBool::new(false), drops: AtomicI64::new(0), calls: AtomicI64::new(0) };
static ZST: [Ctr; SLOTS] = [NEW; SLOTS];
struct Empty<const I: usize>(());
impl<const I: usize> Environ for Empty<I> {
    fn ctr(&self) -> &Ctr {
        &ZST[I]
    }
    fn len(&self) -> u64 {
        0
    }
}
impl<const I: usize> Drop for Empty<I> {
    fn drop(&mut self) {
        ZST[I].dropped()
    }
}
/// Without a destructor: what is captured is only a reference.
struct Plain(&'static Ctr);
impl Environ for Plain {
    fn ctr(&self) -> &Ctr {
        self.0
    }
    fn len(&self) -> u64 {
        3
    }
}
enum CtrRef {
    Shared(Arc<Ctr>),
    Static(&'static Ctr),
    /// leaked box, freed at the end
    Leaked(&'static Ctr),
}
impl std::ops::Deref for CtrRef {
    type Target = Ctr;
    fn deref(&self) -> &Ctr {
        match self {
            CtrRef::Shared(c) => c,
            CtrRef::Static(c) | CtrRef::Leaked(c) => c,
        }
    }
}
impl Drop for EnvModel {
    fn drop(&mut self) {
        if let CtrRef::Leaked(c) = self.ctr {
            unsafe { drop(Box::from_raw(c as *const Ctr as *mut Ctr)) }
        }
    }
}
struct EnvModel {
    ctr: CtrRef,
    rc: i64,
    want_calls: i64,
    /// the environment has a destructor
    has_drop: bool,
}
type Arc1 = ArcDynFn1<u64, u64>;
type Box1 = BoxDynFnMut1<u64, u64>;
type Fn1 = unsafe extern "C" fn(NonNull<()>, u64) -> u64;
enum H {
    A(Arc1),
    B(Box1),
    /// a Rust-side reference to the closure of the Arc
    R(Arc<dyn Fn(u64) -> u64 + Send + Sync>),
}

fn new_owner(g: &mut Gen) -> (Owner, EnvModel) {
    let ctr = Arc::new(Ctr::default());
    let n = g.below(40) as usize;
    (Owner { ctr: ctr.clone(), payload: vec![7; n] }, EnvModel { ctr: CtrRef::Shared(ctr), rc: 1, want_calls: 0, has_drop: true })
}
fn closure_of<E: Environ>(o: E) -> impl Fn(u64) -> u64 + Send + Sync + 'static {
    move |x: u64| {
        o.hit();
        x ^ o.len()
    }
}
fn make_arc<E: Environ>(g: &mut Gen, o: E) -> (Arc1, Option<Arc<dyn Fn(u64) -> u64 + Send + Sync>>) {
    let f = Arc::new(closure_of(o));
    if mem::size_of_val(&*f) == 0 {
        g.label("zero-sized");
    }
    let keep = g.bool().then(|| f.clone() as Arc<dyn Fn(u64) -> u64 + Send + Sync>);
    (if g.bool() { f.into() } else { Arc1::new(f) }, keep)
}
fn make_box<E: Environ>(g: &mut Gen, o: E) -> Box1 {
    let f = Box::new(closure_of(o));
    if mem::size_of_val(&*f) == 0 {
        g.label("zero-sized-box");
    }
    if g.bool() { f.into() } else { Box1::new(f) }
}
/// `$go!(environment)` with an environment of a generated kind, not used before.
macro_rules! with_env { ($g:expr, $slots:expr, |$o:ident| $e:expr) => {{
    let g: &mut Gen = $g;
    let stat = |c: &'static Ctr| EnvModel { ctr: CtrRef::Static(c), rc: 1, want_calls: 0, has_drop: true };
    match g.weighted(&[3, 3, 2, 2]) {
        1 if $slots < SLOTS => {
            $slots += 1;
            let i = $slots - 1;
            (match i {
                0 => { let $o = Empty::<0>(()); $e }
                1 => { let $o = Empty::<1>(()); $e }
                _ => { let $o = Empty::<2>(()); $e }
            }, stat(&ZST[i]))
        }
        2 => {
            let (o, m) = new_owner(g);
            let mut pad = [0; 70];
            pad[69] = 69;
            let $o = Aligned(o, pad);
            ($e, m)
        }
        3 => {
            let c: &'static Ctr = Box::leak(Box::new(Ctr::default()));
            let $o = Plain(c);
            ($e, EnvModel { ctr: CtrRef::Leaked(c), rc: 1, want_calls: 0, has_drop: false })
        }
        _ => {
            let ($o, m) = new_owner(g);
            ($e, m)
        }
    }
}}}

fn lifetimes(g: &mut Gen) {
    let mut envs: Vec<EnvModel> = vec![];
    let mut pool: Vec<(H, usize)> = vec![];
    let steps = g.range(2, 24);
    let mut shared = false;
    let mut slots = 0;
    ZST.iter().for_each(Ctr::reset);
    for _ in 0..steps {
        let op = if pool.is_empty() { g.us(3) } else { g.us(16) };
        let i = if pool.is_empty() { 0 } else { g.us(pool.len()) };
        match op {
            0 | 1 => {
                let e = envs.len();
                let ((a, keep), mut m) = with_env!(g, slots, |o| make_arc(g, o));
                g.note(|| format!("env {e}: Arc, also held by Rust: {}", keep.is_some()));
                if let Some(f) = keep {
                    m.rc += 1;
                    pool.push((H::R(f), e));
                }
                pool.push((H::A(a), e));
                envs.push(m);
            }
            2 => {
                let e = envs.len();
                g.note(|| format!("env {e}: Box"));
                let (b, m) = with_env!(g, slots, |o| make_box(g, o));
                pool.push((H::B(b), e));
                envs.push(m);
            }
            3 | 4 | 5 => {
                let e = pool[i].1;
                let c = match &pool[i].0 {
                    H::A(a) => {
                        shared = true;
                        if g.bool() {
                            g.note(|| format!("clone of a handle of env {e}"));
                            H::A(a.clone())
                        } else {
                            g.note(|| format!("raw retain of env {e}"));
                            unsafe {
                                let raw: RawArc<Fn1> = mem::transmute_copy(a);
                                raw.retain.expect("retain")(raw.env);
                                H::A(mem::transmute(raw))
                            }
                        }
                    }
                    H::R(a) => H::R(a.clone()),
                    H::B(_) => continue,
                };
                envs[e].rc += 1;
                pool.push((c, e));
            }
            6 | 7 | 8 => {
                let (h, e) = pool.swap_remove(i);
                envs[e].rc -= 1;
                let how = g.below(5);
                g.note(|| format!("release ({how}) a handle of env {e}"));
                match (h, how) {
                    (H::A(a), 0 | 1) => unsafe {
                        let raw: RawArc<Fn1> = mem::transmute(a);
                        (raw.release)(raw.env)
                    },
                    (H::B(b), 0 | 1) => unsafe {
                        let raw: RawBox<Fn1> = mem::transmute(b);
                        raw.free.expect("free")(raw.env)
                    },
                    (h, 2) => exempt(|| std::thread::scope(|s| s.spawn(move || match h {
                        H::A(a) => drop(a),
                        H::B(a) => drop(a),
                        H::R(a) => drop(a),
                    }).join().map_err(|_| ()).unwrap())),
                    (h, _) => drop(h),
                }
            }
            9 | 10 | 11 => {
                let e = pool[i].1;
                let x = g.u64();
                let r = match &mut pool[i].0 {
                    H::A(a) => {
                        if g.bool() {
                            a.call(x)
                        } else {
                            unsafe {
                                let raw: RawArc<Fn1> = mem::transmute_copy(a);
                                (raw.call)(raw.env, x)
                            }
                        }
                    }
                    H::B(a) => a.call(x),
                    H::R(a) => a(x),
                };
                envs[e].want_calls += 1;
                check_eq!(r >> 8, x >> 8, "result");
            }
            12 => {
                // a closure made without `retain`
                if let (H::A(a), e) = &mut pool[i] {
                    let e = *e;
                    g.note(|| format!("env {e}: clone without retain"));
                    unsafe {
                        let mut raw: RawArc<Fn1> = mem::transmute_copy(a);
                        raw.retain = None;
                        let h: mem::ManuallyDrop<Arc1> = mem::ManuallyDrop::new(mem::transmute(raw));
                        check!(panics(|| (*h).clone()).is_err(), "clone-without-retain", "cloning a closure with no `retain` did not panic");
                        check_eq!(h.call(256) >> 8, 1, "result");
                    }
                    envs[e].want_calls += 1;
                }
            }
            13 => {
                // borrowed view of a closure held here
                let (o, m) = new_owner(g);
                let mut n = 0u64;
                {
                    let mut f = |x: u64| {
                        let _ = &o;
                        n += x;
                        n
                    };
                    let mut r = RefDynFnMut1::<u64, u64>::new(&mut f);
                    check_eq!(r.call(3), 3, "result");
                    let mut wrap = |x| r.call(x);
                    let mut r2 = RefDynFnMut1::new(&mut wrap);
                    check_eq!(r2.call(4), 7, "result");
                }
                check_eq!(m.ctr.drops.load(SeqCst), 0, "borrowed-env-dropped");
                check_eq!(n, 7, "captured-state");
                drop(o);
                check_eq!(m.ctr.drops.load(SeqCst), 1, "borrowed-env-dropped");
            }
            14 => {
                // several threads share, call and release
                if g.chance(1, 4) {
                    if let H::A(a) = &pool[i].0 {
                        let e = pool[i].1;
                        let k = g.range(2, 4);
                        let n = g.range(1, 6);
                        g.note(|| format!("{k} threads clone, call and release env {e}"));
                        exempt(|| {
                            std::thread::scope(|s| {
                                for t in 0..k {
                                    let c = a.clone();
                                    s.spawn(move || {
                                        let mut cs = vec![];
                                        for j in 0..n {
                                            cs.push(c.clone());
                                            c.call((t * j) as u64);
                                        }
                                        drop(c);
                                        for c in &cs {
                                            c.call(1);
                                        }
                                    });
                                }
                            })
                        });
                        envs[e].want_calls += (k * n * 2) as i64;
                        shared = true;
                    }
                }
            }
            _ => {
                let (a, b) = (g.us(pool.len()), g.us(pool.len()));
                pool.swap(a, b)
            }
        }
        for (e, m) in envs.iter().enumerate() {
            check_eq!(m.ctr.calls.load(SeqCst), m.want_calls, "call-count");
            let drops = m.ctr.drops.load(SeqCst);
            check!(drops == (m.rc == 0 && m.has_drop) as i64, "env-drops", "environment {e}: dropped {drops} times with {} handles left", m.rc);
        }
    }
    for i in 0..pool.len() {
        if let (H::R(a), e) = &pool[i] {
            check_eq!(Arc::strong_count(a) as i64, envs[*e].rc, "strong-count");
        }
    }
    drop(pool);
    for m in &envs {
        check_eq!(m.ctr.drops.load(SeqCst), m.has_drop as i64, "env-drops");
    }
    if shared {
        g.nontrivial();
    }
}

/// Re-entrant and nested calls: a closure that calls others (and itself through a shared handle).
fn nested(g: &mut Gen) {
    let log: Arc<Mutex<Vec<u64>>> = Default::default();
    let depth = g.range(1, 6);
    g.note(|| format!("{depth} closures calling one another"));
    let mut want = vec![];
    let mut f: Arc1 = {
        let log = log.clone();
        Arc::new(move |x: u64| {
            log.lock().unwrap().push(x);
            x.wrapping_add(1)
        })
        .into()
    };
    let x = g.u64();
    let mut muls = vec![];
    for d in 0..depth {
        let k = g.below(100) | 1;
        muls.push(k);
        let inner = if g.bool() { f.clone() } else { mem::replace(&mut f, Arc::new(|x: u64| x).into()) };
        let log = log.clone();
        if d % 2 == 0 {
            f = Arc::new(move |x: u64| {
                log.lock().unwrap().push(x);
                inner.call(x.wrapping_mul(k))
            })
            .into();
        } else {
            let b = Mutex::new(Box1::new(Box::new(move |x: u64| {
                log.lock().unwrap().push(x);
                inner.call(x.wrapping_mul(k))
            })));
            f = Arc::new(move |x: u64| b.lock().unwrap().call(x)).into();
        }
    }
    let mut y = x;
    for k in muls.iter().rev() {
        want.push(y);
        y = y.wrapping_mul(*k);
    }
    want.push(y);
    check_eq!(f.call(x), y.wrapping_add(1), "nested-result");
    check_eq!(*log.lock().unwrap(), want, "nested-order");
    drop(f);
    check_eq!(Arc::strong_count(&log), 1usize, "nested-release");
    g.nontrivial();
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "calls: the closure is called at least once; nested: all",
            subs: vec![
                Sub { name: "calls", f: calls, quick: 400_000, thorough: 8_000_000, leaks: true },
                Sub { name: "nested", f: nested, quick: 30_000, thorough: 500_000, leaks: true },
            ],
        },
        Prop {
            id: "C02",
            rule: "lifetimes: some reference-counted closure was cloned or retained; calls: the closure is called at least once; nested: all",
            subs: vec![
                Sub { name: "lifetimes", f: lifetimes, quick: 60_000, thorough: 1_500_000, leaks: true },
                Sub { name: "calls", f: calls, quick: 150_000, thorough: 3_000_000, leaks: true },
                Sub { name: "nested", f: nested, quick: 20_000, thorough: 300_000, leaks: true },
            ],
        },
    ]
}
