//! D01, D02: FFI trait objects. Model of an object = its state word + its reference count;
//! what a method does is defined by one pure function, `sem`, used by the implementations and
//! by the model: only dispatch, argument passing, cloning and release are under test.
use crate::alloc::exempt;
use crate::engine::*;
use crate::vals::{mix, Big, Val};
use crate::{check, check_eq};
use safer_ffi::dyn_traits::*;
use safer_ffi::prelude::*;
use std::collections::HashMap;
use std::mem::{self, ManuallyDrop};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------ registry of concrete values

struct Reg {
    live: Option<HashMap<u64, ()>>,
    next: u64,
    double: Option<u64>,
    drops: u64,
}
static REG: Mutex<Reg> = Mutex::new(Reg { live: None, next: 1, double: None, drops: 0 });
fn reg<R>(f: impl FnOnce(&mut Reg) -> R) -> R {
    exempt(|| {
        let mut r = REG.lock().unwrap_or_else(|e| e.into_inner());
        if r.live.is_none() {
            r.live = Some(HashMap::new())
        }
        f(&mut r)
    })
}
fn born() -> u64 {
    reg(|r| {
        let id = r.next;
        r.next += 1;
        r.live.as_mut().unwrap().insert(id, ());
        id
    })
}
fn died(id: u64) {
    reg(|r| {
        r.drops += 1;
        if r.live.as_mut().unwrap().remove(&id).is_none() {
            r.double = Some(id)
        }
    })
}
fn reset() {
    reg(|r| {
        r.live = Some(HashMap::new());
        r.double = None;
        r.drops = 0;
    });
    ZLIVE.store(0, SeqCst);
    ZST_ST.store(0, SeqCst);
    take_log();
}
fn live_ids() -> usize {
    let d = reg(|r| r.double);
    check!(d.is_none(), "double-drop", "concrete value {d:?} was dropped twice");
    reg(|r| r.live.as_ref().unwrap().len())
}
thread_local!(static LOG: std::cell::RefCell<Vec<(u32, u64)>> = const { std::cell::RefCell::new(vec![]) });
fn log(m: u32, args: u64) {
    exempt(|| LOG.with(|l| l.borrow_mut().push((m, args))))
}
fn take_log() -> Vec<(u32, u64)> {
    exempt(|| LOG.with(|l| mem::take(&mut *l.borrow_mut())))
}

/// What method `m` with arguments `args` does to the state; the result derives from the new state.
fn sem(st: u64, m: u32, args: u64) -> u64 {
    if m == 0 {
        st
    } else {
        mix(mix(st, m as u64), args)
    }
}

pub trait Payload: Clone + Send + Sync + Unpin {
    fn make() -> Self;
    fn ok(&self) -> bool;
}
impl Payload for () {
    fn make() {}
    fn ok(&self) -> bool {
        true
    }
}
impl Payload for [u8; 5] {
    fn make() -> Self {
        *b"hello"
    }
    fn ok(&self) -> bool {
        self == b"hello"
    }
}
#[derive(Clone)]
#[repr(align(128))]
pub struct Al([u8; 128]);
impl Payload for Al {
    fn make() -> Self {
        Al([0x77; 128])
    }
    fn ok(&self) -> bool {
        self as *const _ as usize % 128 == 0 && self.0 == [0x77; 128]
    }
}
impl Payload for Vec<u8> {
    fn make() -> Self {
        vec![9; 33]
    }
    fn ok(&self) -> bool {
        self.len() == 33 && self.iter().all(|&b| b == 9)
    }
}

/// The concrete object.
pub struct Obj<P> {
    st: AtomicU64,
    id: u64,
    p: P,
}
impl<P: Payload> Obj<P> {
    fn new(st: u64) -> Self {
        Obj { st: AtomicU64::new(st), id: born(), p: P::make() }
    }
    fn act(&self, m: u32, args: u64) -> u64 {
        check!(self.p.ok(), "object-corrupted", "the concrete value behind the trait object is corrupted");
        check!(reg(|r| r.live.as_ref().unwrap().contains_key(&self.id)), "used-after-drop", "method {m} called on a dropped concrete value");
        log(m, args);
        let n = sem(self.st.load(SeqCst), m, args);
        self.st.store(n, SeqCst);
        n
    }
}
/// How often `clone` of a concrete value was called.
static CLONES: AtomicU64 = AtomicU64::new(0);
impl<P: Payload> Clone for Obj<P> {
    fn clone(&self) -> Self {
        CLONES.fetch_add(1, SeqCst);
        Obj { st: AtomicU64::new(self.st.load(SeqCst)), id: born(), p: self.p.clone() }
    }
}
impl<P> Drop for Obj<P> {
    fn drop(&mut self) {
        died(self.id)
    }
}
/// A zero-sized concrete type (its state is global).
pub struct Z;
static ZLIVE: AtomicI64 = AtomicI64::new(0);
static ZST_ST: AtomicU64 = AtomicU64::new(0);
impl Z {
    fn new() -> Z {
        ZLIVE.fetch_add(1, SeqCst);
        Z
    }
    fn act(&self, m: u32, args: u64) -> u64 {
        check!(ZLIVE.load(SeqCst) > 0, "used-after-drop", "method {m} called on a dropped concrete value");
        log(m, args);
        let n = sem(ZST_ST.load(SeqCst), m, args);
        ZST_ST.store(n, SeqCst);
        n
    }
}
impl Clone for Z {
    fn clone(&self) -> Self {
        CLONES.fetch_add(1, SeqCst);
        Z::new()
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        ZLIVE.fetch_sub(1, SeqCst);
    }
}

/// A concrete type without drop glue (whose `Clone` is still more than a copy).
pub struct Plain {
    st: AtomicU64,
    canary: [u8; 3],
}
impl Plain {
    fn act(&self, m: u32, args: u64) -> u64 {
        check!(self.canary == *b"abc", "object-corrupted", "the concrete value behind the trait object is corrupted");
        log(m, args);
        let n = sem(self.st.load(SeqCst), m, args);
        self.st.store(n, SeqCst);
        n
    }
}
impl Clone for Plain {
    fn clone(&self) -> Self {
        CLONES.fetch_add(1, SeqCst);
        Plain { st: AtomicU64::new(self.st.load(SeqCst)), canary: self.canary }
    }
}

// ------------------------------------------------------------ traits

#[derive_ReprC(dyn)]
pub trait Cb {
    fn call(&mut self, x: u64) -> u64;
}
impl<F: FnMut(u64) -> u64> Cb for F {
    fn call(&mut self, x: u64) -> u64 {
        self(x)
    }
}

/// Shared receivers; clonable.
#[derive_ReprC(dyn, Clone)]
pub trait Sh {
    fn get(&self) -> u64;
    fn m1(&self, x: u64) -> u64;
    fn m2(&self, x: u64) -> u64;
    fn many(&self, a: u8, b: f64, c: Big, d: bool, e: c_slice::Ref<'_, u8>, f: char_p::Ref<'_>, g: Option<&u16>) -> Big;
    fn big(&self, a: Big, b: u64) -> Big;
    fn owned(&self, s: repr_c::String, v: Option<repr_c::Box<u32>>) -> repr_c::Vec<u8>;
    fn unit(&self);
    fn cb(&self, f: VirtualPtr<dyn '_ + Cb>) -> i8;
    fn pass(&self, x: u64, y: u64, z: u64) -> u64 {
        self.m1(x ^ y.rotate_left(1) ^ z.rotate_left(2))
    }
}
/// Exclusive receivers.
#[derive_ReprC(dyn)]
pub trait Mu {
    fn get(&self) -> u64;
    fn m1(&mut self, x: u64) -> u64;
    fn m2(&mut self, a: Big, x: i16) -> Big;
    fn view(&self, f: f64) -> f64;
    fn unit(&mut self, b: bool);
}
/// Exclusive receivers only: has a `dyn Send` form.
#[derive_ReprC(dyn)]
pub trait MuOnly {
    fn m1(&mut self, x: u64) -> u64;
    fn m2(&mut self, x: u64) -> u64;
}
/// Exclusive and clonable.
#[derive_ReprC(dyn, Clone)]
pub trait MuC {
    fn get(&self) -> u64;
    fn m1(&mut self, x: u64) -> u64;
    fn m2(&mut self, x: u8, y: f32, z: u64) -> u64;
}
/// Pinned receivers.
#[derive_ReprC(dyn)]
pub trait Pi {
    fn m1(self: Pin<&mut Self>, x: u64) -> u64;
    fn get(&self) -> u64;
    fn m2(self: Pin<&mut Self>, x: u32, b: Big) -> Big;
}
#[derive_ReprC(dyn, Clone)]
pub trait PiSh {
    fn m1(self: Pin<&Self>, x: u64) -> u64;
    fn m2(self: Pin<&Self>, x: u64) -> u64;
}
fn enc_slice(b: &[u8]) -> u64 {
    b.iter().fold(b.len() as u64, |x, &y| mix(x, y as u64))
}
fn enc_many(a: u8, b: f64, c: &Big, d: bool, e: &[u8], f: &std::primitive::str, g: Option<&u16>) -> u64 {
    [a as u64, b.to_bits(), c.enc(), d as u64, enc_slice(e), enc_slice(f.as_bytes()), g.map_or(1 << 40, |x| *x as u64)].iter().fold(1, |x, &y| mix(x, y))
}
fn bytes_of(n: u64) -> Vec<u8> {
    n.to_le_bytes()[..(n % 9) as usize].to_vec()
}
fn enc_owned(s: &std::primitive::str, v: Option<u32>) -> u64 {
    mix(enc_slice(s.as_bytes()), v.map_or(1 << 40, |x| x as u64))
}

macro_rules! impls { ($([$($g:tt)*] $T:ty),*) => ($(
    impl<$($g)*> Sh for $T {
        fn get(&self) -> u64 { self.act(0, 0) }
        fn m1(&self, x: u64) -> u64 { self.act(1, x) }
        fn m2(&self, x: u64) -> u64 { self.act(2, x) }
        fn many(&self, a: u8, b: f64, c: Big, d: bool, e: c_slice::Ref<'_, u8>, f: char_p::Ref<'_>, g: Option<&u16>) -> Big {
            Big::gen(self.act(3, enc_many(a, b, &c, d, &e, f.to_str(), g)))
        }
        fn big(&self, a: Big, b: u64) -> Big { Big::gen(self.act(4, mix(a.enc(), b))) }
        fn owned(&self, s: repr_c::String, v: Option<repr_c::Box<u32>>) -> repr_c::Vec<u8> {
            bytes_of(self.act(5, enc_owned(&s, v.as_ref().map(|b| **b)))).into()
        }
        fn unit(&self) { self.act(6, 0); }
        fn cb(&self, mut f: VirtualPtr<dyn '_ + Cb>) -> i8 {
            let a = f.call(5);
            let b = f.call(a);
            self.act(7, mix(a, b)) as i8
        }
    }
    impl<$($g)*> Mu for $T {
        fn get(&self) -> u64 { self.act(0, 0) }
        fn m1(&mut self, x: u64) -> u64 { self.act(1, x) }
        fn m2(&mut self, a: Big, x: i16) -> Big { Big::gen(self.act(2, mix(a.enc(), x as u64))) }
        fn view(&self, f: f64) -> f64 { f64::from_bits(self.act(3, f.to_bits()) & !(0x7ff << 52)) }
        fn unit(&mut self, b: bool) { self.act(4, b as u64); }
    }
    impl<$($g)*> MuOnly for $T {
        fn m1(&mut self, x: u64) -> u64 { self.act(1, x) }
        fn m2(&mut self, x: u64) -> u64 { self.act(2, x) }
    }
    impl<$($g)*> MuC for $T {
        fn get(&self) -> u64 { self.act(0, 0) }
        fn m1(&mut self, x: u64) -> u64 { self.act(1, x) }
        fn m2(&mut self, x: u8, y: f32, z: u64) -> u64 { self.act(2, mix(mix(x as u64, y.to_bits() as u64), z)) }
    }
    impl<$($g)*> Pi for $T {
        fn m1(self: Pin<&mut Self>, x: u64) -> u64 { self.act(1, x) }
        fn get(&self) -> u64 { self.act(0, 0) }
        fn m2(self: Pin<&mut Self>, x: u32, b: Big) -> Big { Big::gen(self.act(2, mix(x as u64, b.enc()))) }
    }
    impl<$($g)*> PiSh for $T {
        fn m1(self: Pin<&Self>, x: u64) -> u64 { self.act(1, x) }
        fn m2(self: Pin<&Self>, x: u64) -> u64 { self.act(2, x) }
    }
)*)}
impls!([P: Payload] Obj<P>, [] Z, [] Plain);

pub trait Concrete: Clone + Send + Sync + Unpin + 'static + Sh + Mu + MuOnly + MuC + Pi + PiSh {
    const ZST: bool;
    const PLAIN: bool = false;
    fn mk(st: u64) -> Self;
    fn state(&self) -> u64;
}
impl<P: Payload + 'static> Concrete for Obj<P> {
    const ZST: bool = false;
    fn mk(st: u64) -> Self {
        Obj::new(st)
    }
    fn state(&self) -> u64 {
        self.st.load(SeqCst)
    }
}
impl Concrete for Z {
    const ZST: bool = true;
    fn mk(_: u64) -> Self {
        Z::new()
    }
    fn state(&self) -> u64 {
        ZST_ST.load(SeqCst)
    }
}

impl Concrete for Plain {
    const ZST: bool = false;
    const PLAIN: bool = true;
    fn mk(st: u64) -> Self {
        Plain { st: AtomicU64::new(st), canary: *b"abc" }
    }
    fn state(&self) -> u64 {
        self.st.load(SeqCst)
    }
}

// ------------------------------------------------------------ C views

type P0 = *const ();
#[repr(C)]
#[derive(Clone, Copy)]
struct CSlice {
    p: *const u8,
    n: usize,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct CVec {
    p: *const u8,
    n: usize,
    cap: usize,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct CSh {
    ptr: P0,
    release: unsafe extern "C" fn(P0),
    retain: unsafe extern "C" fn(P0) -> P0,
    get: unsafe extern "C" fn(P0) -> u64,
    m1: unsafe extern "C" fn(P0, u64) -> u64,
    m2: unsafe extern "C" fn(P0, u64) -> u64,
    many: unsafe extern "C" fn(P0, u8, f64, Big, u8, CSlice, *const u8, *const u16) -> Big,
    big: unsafe extern "C" fn(P0, Big, u64) -> Big,
    owned: unsafe extern "C" fn(P0, CVec, *mut u32) -> CVec,
    unit: unsafe extern "C" fn(P0),
    cb: unsafe extern "C" fn(P0, CCb) -> i8,
    pass: unsafe extern "C" fn(P0, u64, u64, u64) -> u64,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct CCb {
    ptr: P0,
    release: unsafe extern "C" fn(P0),
    call: unsafe extern "C" fn(P0, u64) -> u64,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct CMu {
    ptr: P0,
    release: unsafe extern "C" fn(P0),
    get: unsafe extern "C" fn(P0) -> u64,
    m1: unsafe extern "C" fn(P0, u64) -> u64,
    m2: unsafe extern "C" fn(P0, Big, i16) -> Big,
    view: unsafe extern "C" fn(P0, f64) -> f64,
    unit: unsafe extern "C" fn(P0, u8),
}
#[repr(C)]
#[derive(Clone, Copy)]
struct CRel {
    ptr: P0,
    release: unsafe extern "C" fn(P0),
    retain: unsafe extern "C" fn(P0) -> P0,
}

// ------------------------------------------------------------ handles

enum H<'a> {
    Sh(VirtualPtr<dyn 'a + Sh>),
    ShS(VirtualPtr<dyn 'a + Send + Sync + Sh>),
    Mu(VirtualPtr<dyn 'a + Mu>),
    MuS(VirtualPtr<dyn 'a + Send + Sync + Mu>),
    MuO(VirtualPtr<dyn 'a + Send + MuOnly>),
    MuC(VirtualPtr<dyn 'a + MuC>),
    MuCS(VirtualPtr<dyn 'a + Send + Sync + MuC>),
    Pi(VirtualPtr<dyn 'a + Pi>),
    PiSh(VirtualPtr<dyn 'a + PiSh>),
}
impl H<'_> {
    fn kind(&self) -> &'static str {
        match self {
            H::Sh(_) => "dyn Sh",
            H::ShS(_) => "dyn Send+Sync+Sh",
            H::Mu(_) => "dyn Mu",
            H::MuS(_) => "dyn Send+Sync+Mu",
            H::MuO(_) => "dyn Send+MuOnly",
            H::MuC(_) => "dyn MuC",
            H::MuCS(_) => "dyn Send+Sync+MuC",
            H::Pi(_) => "dyn Pi",
            H::PiSh(_) => "dyn PiSh",
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Own {
    Unique,
    Shared,
    Borrowed,
    BorrowedMut,
}
struct ObjM {
    st: u64,
    own: Own,
    /// handles (plus Rust-side references, for shared ownership)
    rc: usize,
    /// a borrowed concrete value lives in the arena
    arena: Option<usize>,
}
enum Ext<T> {
    Rc(Rc<T>),
    Arc(Arc<T>),
}

fn gen_big(g: &mut Gen) -> Big {
    Big::gen(g.u64())
}
fn owned_args(g: &mut Gen) -> (String, Option<u32>) {
    let n = g.us(12);
    let s: String = (0..n).map(|i| (b'a' + i as u8) as char).collect();
    (s, g.bool().then(|| g.below(1 << 32) as u32))
}

#[allow(unused_must_use)]
fn history<T: Concrete>(g: &mut Gen, tname: &'static str) {
    reset();
    g.note(|| format!("concrete type {tname}"));
    let mut arena: Vec<*mut T> = vec![];
    let mut objs: Vec<ObjM> = vec![];
    let mut ext: Vec<(Ext<T>, usize)> = vec![];
    let mut pool: Vec<(H<'static>, usize)> = vec![];
    let steps = g.range(2, 22);
    let (mut ncalls, mut nclones) = (0, 0);
    let zst = T::ZST;
    macro_rules! st { ($o:expr) => { *if zst { &mut objs[0].st } else { &mut objs[$o].st } } }
    for _ in 0..steps {
        let op = if pool.is_empty() { 0 } else { g.weighted(&[5, 8, 5, 4, 2, 2, 1]) };
        let i = if pool.is_empty() { 0 } else { g.us(pool.len()) };
        match op {
            0 => {
                let o = objs.len();
                let s0 = if zst { 0 } else { g.below(1 << 30) };
                let mut m = ObjM { st: s0, own: Own::Unique, rc: 1, arena: None };
                let v = T::mk(s0);
                let how = g.us(19);
                macro_rules! boxed { ($K:ident) => {{ g.note(|| format!("object {o}: {} from Box", stringify!($K))); H::$K(Box::new(v).into()) }} }
                macro_rules! shared { ($K:ident, $Rc:ident) => {{
                    g.note(|| format!("object {o}: {} from {}", stringify!($K), stringify!($Rc)));
                    m.own = Own::Shared;
                    let a = $Rc::new(v);
                    if g.bool() { m.rc += 1; ext.push((Ext::$Rc(a.clone()), o)); }
                    H::$K(a.into())
                }} }
                macro_rules! borrowed { ($K:ident, $own:ident, $p:ident => $e:expr) => {{
                    g.note(|| format!("object {o}: {} from {}", stringify!($K), stringify!($e)));
                    m.own = Own::$own;
                    let $p = Box::into_raw(Box::new(v));
                    m.arena = Some(arena.len());
                    arena.push($p);
                    #[allow(unused_unsafe)]
                    unsafe { H::$K($e.into()) }
                }} }
                let h = match how {
                    0 => boxed!(Sh),
                    1 => boxed!(ShS),
                    2 => boxed!(Mu),
                    3 => boxed!(MuS),
                    4 => boxed!(MuO),
                    5 => boxed!(MuC),
                    6 => boxed!(MuCS),
                    7 | 8 => shared!(Sh, Rc),
                    9 | 10 => shared!(ShS, Arc),
                    11 => borrowed!(Sh, Borrowed, p => &*p),
                    12 => borrowed!(ShS, Borrowed, p => &*p),
                    13 => borrowed!(Mu, BorrowedMut, p => &mut *p),
                    14 => borrowed!(MuO, BorrowedMut, p => &mut *p),
                    15 => {
                        g.note(|| format!("object {o}: Pi from Pin<Box>"));
                        H::Pi(Box::pin(v).into())
                    }
                    16 => borrowed!(Pi, BorrowedMut, p => Pin::new_unchecked(&mut *p)),
                    17 => {
                        g.note(|| format!("object {o}: PiSh from Pin<Box>"));
                        H::PiSh(Box::pin(v).into())
                    }
                    _ => borrowed!(PiSh, Borrowed, p => Pin::new_unchecked(&*p)),
                };
                objs.push(m);
                pool.push((h, o));
            }
            1 => {
                // a method call
                let o = pool[i].1;
                let raw = g.chance(1, 3);
                ncalls += 1;
                let (x, y, z) = (g.u64(), g.u64(), g.u64());
                let h = &mut pool[i].0;
                g.note(|| format!("call a method of object {o} ({}){}", h.kind(), if raw { " through the vtable" } else { "" }));
                // expected (method, args) log
                macro_rules! did { ($m:expr, $args:expr) => {{
                    let a: u64 = $args;
                    st!(o) = sem(st!(o), $m, a);
                    let l = take_log();
                    check_eq!(l, [($m as u32, a)], "method-dispatch");
                    exempt(|| drop(l));
                    st!(o)
                }} }
                macro_rules! sh { ($v:expr) => {{
                    let c: CSh = unsafe { mem::transmute_copy($v) };
                    match g.us(9) {
                        0 => { let r = if raw { unsafe { (c.get)(c.ptr) } } else { $v.get() }; check_eq!(r, did!(0, 0), "method-result") }
                        1 => { let r = if raw { unsafe { (c.m1)(c.ptr, x) } } else { $v.m1(x) }; check_eq!(r, did!(1, x), "method-result") }
                        2 => { let r = if raw { unsafe { (c.m2)(c.ptr, x) } } else { $v.m2(x) }; check_eq!(r, did!(2, x), "method-result") }
                        3 => {
                            let (a, b, d) = (x as u8, f64::from_bits(y), z & 1 == 1);
                            let big = gen_big(g);
                            let n = g.us(20);
                            let e = g.fill(n);
                            let f = *g.pick(&[c!(""), c!("a"), c!("héllo"), c!("long text of more than a few bytes")]);
                            let q = z as u16;
                            let q = g.bool().then_some(&q);
                            let r = if raw {
                                unsafe { (c.many)(c.ptr, a, b, big, d as u8, CSlice { p: e.as_ptr(), n: e.len() }, mem::transmute(f), mem::transmute(q)) }
                            } else {
                                $v.many(a, b, big, d, e[..].into(), f, q)
                            };
                            check_eq!(r.enc(), Big::gen(did!(3, enc_many(a, b, &big, d, &e, f.to_str(), q))).enc(), "method-result")
                        }
                        4 => { let b = gen_big(g); let r = if raw { unsafe { (c.big)(c.ptr, b, x) } } else { $v.big(b, x) }; check_eq!(r.enc(), Big::gen(did!(4, mix(b.enc(), x))).enc(), "method-result") }
                        5 => {
                            let (s, v) = owned_args(g);
                            let want = enc_owned(&s, v);
                            let (s, v): (repr_c::String, Option<repr_c::Box<u32>>) = (s.into(), v.map(|v| Box::new(v).into()));
                            let r: repr_c::Vec<u8> = if raw { unsafe { mem::transmute((c.owned)(c.ptr, mem::transmute(s), mem::transmute(v))) } } else { $v.owned(s, v) };
                            check_eq!(*r, *bytes_of(did!(5, want)), "method-result")
                        }
                        6 => { if raw { unsafe { (c.unit)(c.ptr) } } else { $v.unit() }; did!(6, 0); }
                        7 => {
                            let mut seen = vec![];
                            let mut f = |a: u64| { seen.push(a); a.wrapping_mul(x | 1) };
                            let r = {
                                let f: VirtualPtr<dyn '_ + Cb> = (&mut f).into();
                                if raw { unsafe { (c.cb)(c.ptr, mem::transmute(f)) } } else { $v.cb(f) }
                            };
                            let (a, b) = (5u64.wrapping_mul(x | 1), 5u64.wrapping_mul(x | 1).wrapping_mul(x | 1));
                            check_eq!(seen, [5, a], "callback-arguments");
                            check_eq!(r, did!(7, mix(a, b)) as i8, "method-result")
                        }
                        _ => { let r = if raw { unsafe { (c.pass)(c.ptr, x, y, z) } } else { $v.pass(x, y, z) }; check_eq!(r, did!(1, x ^ y.rotate_left(1) ^ z.rotate_left(2)), "method-result") }
                    }
                }} }
                macro_rules! mu { ($v:expr) => {{
                    let c: CMu = unsafe { mem::transmute_copy($v) };
                    match g.us(5) {
                        0 => { let r = if raw { unsafe { (c.get)(c.ptr) } } else { $v.get() }; check_eq!(r, did!(0, 0), "method-result") }
                        1 => { let r = if raw { unsafe { (c.m1)(c.ptr, x) } } else { $v.m1(x) }; check_eq!(r, did!(1, x), "method-result") }
                        2 => { let b = gen_big(g); let r = if raw { unsafe { (c.m2)(c.ptr, b, x as i16) } } else { $v.m2(b, x as i16) }; check_eq!(r.enc(), Big::gen(did!(2, mix(b.enc(), x as i16 as u64))).enc(), "method-result") }
                        3 => { let f = f64::from_bits(x); let r = if raw { unsafe { (c.view)(c.ptr, f) } } else { $v.view(f) }; check_eq!(r.to_bits(), did!(3, x) & !(0x7ff << 52), "method-result") }
                        _ => { if raw { unsafe { (c.unit)(c.ptr, (x & 1) as u8) } } else { $v.unit(x & 1 == 1) }; did!(4, x & 1); }
                    }
                }} }
                macro_rules! muc { ($v:expr) => {{
                    match g.us(3) {
                        0 => check_eq!($v.get(), did!(0, 0), "method-result"),
                        1 => check_eq!($v.m1(x), did!(1, x), "method-result"),
                        _ => check_eq!($v.m2(x as u8, f32::from_bits(y as u32 & !0x40_0000), z), did!(2, mix(mix(x as u8 as u64, (y as u32 & !0x40_0000) as u64), z)), "method-result"),
                    }
                }} }
                match h {
                    H::Sh(v) => sh!(v),
                    H::ShS(v) => sh!(v),
                    H::Mu(v) => mu!(v),
                    H::MuS(v) => mu!(v),
                    H::MuO(v) => {
                        if g.bool() {
                            check_eq!(v.m1(x), did!(1, x), "method-result")
                        } else {
                            check_eq!(v.m2(x), did!(2, x), "method-result")
                        }
                    }
                    H::MuC(v) => muc!(v),
                    H::MuCS(v) => muc!(v),
                    H::Pi(v) => match g.us(3) {
                        0 => check_eq!(v.get(), did!(0, 0), "method-result"),
                        1 => check_eq!(unsafe { Pin::new_unchecked(v) }.m1(x), did!(1, x), "method-result"),
                        _ => {
                            let b = gen_big(g);
                            check_eq!(unsafe { Pin::new_unchecked(v) }.m2(x as u32, b).enc(), Big::gen(did!(2, mix(x as u32 as u64, b.enc()))).enc(), "method-result")
                        }
                    },
                    H::PiSh(v) => {
                        if g.bool() {
                            check_eq!(unsafe { Pin::new_unchecked(&*v) }.m1(x), did!(1, x), "method-result")
                        } else {
                            check_eq!(unsafe { Pin::new_unchecked(&*v) }.m2(x), did!(2, x), "method-result")
                        }
                    }
                }
            }
            2 => {
                // clone
                let o = pool[i].1;
                let raw = g.chance(1, 3);
                macro_rules! cl { ($v:expr, $K:ident) => {
                    if raw {
                        // C calls `retain` and copies the rest
                        let mut c: mem::MaybeUninit<_> = mem::MaybeUninit::uninit();
                        unsafe {
                            std::ptr::copy_nonoverlapping($v, c.as_mut_ptr(), 1);
                            let r: &mut CRel = &mut *c.as_mut_ptr().cast();
                            r.ptr = (r.retain)(r.ptr);
                            Some(H::$K(c.assume_init()))
                        }
                    } else {
                        Some(H::$K($v.clone()))
                    }
                } }
                let before = CLONES.load(SeqCst);
                let c = match &pool[i].0 {
                    H::Sh(v) => cl!(v, Sh),
                    H::ShS(v) => cl!(v, ShS),
                    H::MuC(v) => cl!(v, MuC),
                    H::MuCS(v) => cl!(v, MuCS),
                    H::PiSh(v) => cl!(v, PiSh),
                    _ => None,
                };
                if let Some(c) = c {
                    nclones += 1;
                    g.note(|| format!("clone a handle of object {o}{}", if raw { " through the vtable" } else { "" }));
                    let l = take_log();
                    let (n, want) = (CLONES.load(SeqCst) - before, (objs[o].own == Own::Unique) as u64);
                    check!(n == want, "concrete-clones", "cloning the handle cloned the concrete value {n} time(s), expected {want}");
                    check!(l.is_empty(), "clone-calls-method", "cloning called methods: {l:?}");
                    if objs[o].own == Own::Unique {
                        let st = objs[o].st;
                        pool.push((c, objs.len()));
                        objs.push(ObjM { st, own: Own::Unique, rc: 1, arena: None });
                    } else {
                        objs[o].rc += 1;
                        pool.push((c, o));
                    }
                }
            }
            3 => {
                // release
                let (h, o) = pool.swap_remove(i);
                let how = g.below(4);
                g.note(|| format!("release ({how}) a handle of object {o}"));
                objs[o].rc -= 1;
                let rel = |h: *const H<'_>| unsafe {
                    macro_rules! r { ($($K:ident)*) => { match &*h { $(H::$K(v) => { let c: [P0; 2] = mem::transmute_copy(v); let f: unsafe extern "C" fn(P0) = mem::transmute(c[1]); f(c[0]) })* } } }
                    r!(Sh ShS Mu MuS MuO MuC MuCS Pi PiSh)
                };
                match (h, how) {
                    (h, 0) => {
                        let h = ManuallyDrop::new(h);
                        rel(&*h);
                    }
                    (H::ShS(v), 1) => exempt(|| std::thread::scope(|s| s.spawn(move || drop(v)).join().map_err(|_| ()).unwrap())),
                    (H::MuS(v), 1) => exempt(|| std::thread::scope(|s| s.spawn(move || drop(v)).join().map_err(|_| ()).unwrap())),
                    (H::MuO(v), 1) => exempt(|| std::thread::scope(|s| s.spawn(move || drop(v)).join().map_err(|_| ()).unwrap())),
                    (h, _) => drop(h),
                }
            }
            4 => {
                // Rust-side references
                if !ext.is_empty() {
                    let k = g.us(ext.len());
                    let (e, o) = ext.swap_remove(k);
                    g.note(|| format!("drop the Rust-side reference to object {o}"));
                    let (n, s) = match &e {
                        Ext::Rc(r) => (Rc::strong_count(r), r.state()),
                        Ext::Arc(r) => (Arc::strong_count(r), r.state()),
                    };
                    check_eq!(n, objs[o].rc, "strong-count");
                    check_eq!(s, st!(o), "shared-state");
                    objs[o].rc -= 1;
                    drop(e);
                }
            }
            5 => {
                // the parts and back; moved to the heap and back
                let (h, o) = pool.swap_remove(i);
                let h = match h {
                    H::Sh(v) => {
                        let v = ManuallyDrop::new(v);
                        unsafe { H::Sh(VirtualPtr::from_raw_parts(v.__ptr().into(), std::ptr::read(v.__vtable()))) }
                    }
                    H::Mu(v) => {
                        let v = ManuallyDrop::new(v);
                        unsafe { H::Mu(VirtualPtr::from_raw_parts(v.__ptr().into(), std::ptr::read(v.__vtable()))) }
                    }
                    H::ShS(v) => {
                        let o: Option<VirtualPtr<dyn Send + Sync + Sh>> = Some(v);
                        H::ShS(o.unwrap())
                    }
                    h => *Box::new(h),
                };
                pool.push((h, o));
            }
            _ => {
                // several threads share an Arc-backed object
                if let H::ShS(v) = &pool[i].0 {
                    if !zst && nclones < 50 {
                        let o = pool[i].1;
                        if objs[o].own == Own::Shared {
                            g.note(|| format!("threads clone and release object {o}"));
                            nclones += 1;
                            exempt(|| {
                                std::thread::scope(|s| {
                                    for _ in 0..3 {
                                        let c = v.clone();
                                        s.spawn(move || {
                                            let d = c.clone();
                                            d.get();
                                            drop(c);
                                            let e = d.clone();
                                            drop(d);
                                            e.get();
                                        });
                                    }
                                })
                            });
                        }
                    }
                }
            }
        }
        // exactly the objects with handles (or in the arena) are alive
        let want = objs.iter().filter(|m| m.rc > 0 || m.arena.is_some()).count();
        let got = live_ids() + ZLIVE.load(SeqCst) as usize;
        if !T::PLAIN {
            check_eq!(got, want, "live-objects");
        }
        for m in &objs {
            if let (Some(k), false) = (m.arena, zst) {
                check_eq!(unsafe { (*arena[k]).state() }, m.st, "borrowed-state");
            }
        }
    }
    drop(ext);
    drop(pool);
    if !T::PLAIN {
        check_eq!(live_ids() + ZLIVE.load(SeqCst) as usize, arena.len(), "live-objects");
    }
    for p in arena {
        drop(unsafe { Box::from_raw(p) });
    }
    check_eq!(live_ids() + ZLIVE.load(SeqCst) as usize, 0usize, "live-objects");
    take_log();
    if ncalls > 0 && nclones > 0 {
        g.nontrivial();
    }
}

fn objects(g: &mut Gen) {
    match g.below(7) {
        6 => history::<Plain>(g, "without drop glue"),
        0 | 1 => history::<Obj<()>>(g, "16 bytes"),
        2 => history::<Obj<[u8; 5]>>(g, "24 bytes"),
        3 => history::<Obj<Al>>(g, "align 128"),
        4 => history::<Obj<Vec<u8>>>(g, "with a Vec"),
        _ => history::<Z>(g, "zero-sized"),
    }
}

// ------------------------------------------------------------ objects implemented by C

struct CObj {
    st: u64,
    rc: i64,
    released: i64,
    seen: Vec<(u32, u64)>,
}
unsafe fn co<'a>(p: P0) -> &'a mut CObj {
    &mut *(p as *mut CObj)
}
unsafe fn co_act(p: P0, m: u32, a: u64) -> u64 {
    let o = co(p);
    check!(o.rc > 0, "used-after-drop", "method {m} of a foreign object called after its release");
    exempt(|| o.seen.push((m, a)));
    o.st = sem(o.st, m, a);
    o.st
}
unsafe extern "C" fn co_release(p: P0) {
    co(p).rc -= 1;
    co(p).released += 1;
}
unsafe extern "C" fn co_retain(p: P0) -> P0 {
    co(p).rc += 1;
    p
}
unsafe extern "C" fn co_get(p: P0) -> u64 {
    co_act(p, 0, 0)
}
unsafe extern "C" fn co_m1(p: P0, x: u64) -> u64 {
    co_act(p, 1, x)
}
unsafe extern "C" fn co_m2(p: P0, x: u64) -> u64 {
    co_act(p, 2, x)
}
unsafe extern "C" fn co_many(p: P0, a: u8, b: f64, c: Big, d: u8, e: CSlice, f: *const u8, g: *const u16) -> Big {
    let f = std::ffi::CStr::from_ptr(f as _).to_str().unwrap();
    Big::gen(co_act(p, 3, enc_many(a, b, &c, d == 1, std::slice::from_raw_parts(e.p, e.n), f, g.as_ref())))
}
unsafe extern "C" fn co_big(p: P0, a: Big, b: u64) -> Big {
    Big::gen(co_act(p, 4, mix(a.enc(), b)))
}
unsafe extern "C" fn co_owned(p: P0, s: CVec, v: *mut u32) -> CVec {
    let s: repr_c::String = mem::transmute(s);
    let v: Option<repr_c::Box<u32>> = mem::transmute(v);
    mem::transmute(repr_c::Vec::from(bytes_of(co_act(p, 5, enc_owned(&s, v.as_ref().map(|b| **b))))))
}
unsafe extern "C" fn co_unit(p: P0) {
    co_act(p, 6, 0);
}
unsafe extern "C" fn co_cb(p: P0, f: CCb) -> i8 {
    let a = (f.call)(f.ptr, 5);
    let b = (f.call)(f.ptr, a);
    (f.release)(f.ptr);
    co_act(p, 7, mix(a, b)) as i8
}
unsafe extern "C" fn co_pass(p: P0, x: u64, y: u64, z: u64) -> u64 {
    co_act(p, 8, mix(mix(x, y), z))
}

fn foreign(g: &mut Gen) {
    reset();
    let mut o = Box::new(CObj { st: g.below(1 << 30), rc: 1, released: 0, seen: vec![] });
    let p: *mut CObj = &mut *o;
    let c = CSh {
        ptr: p as P0,
        release: co_release,
        retain: co_retain,
        get: co_get,
        m1: co_m1,
        m2: co_m2,
        many: co_many,
        big: co_big,
        owned: co_owned,
        unit: co_unit,
        cb: co_cb,
        pass: co_pass,
    };
    check_eq!(mem::size_of::<CSh>(), mem::size_of::<VirtualPtr<dyn Sh>>(), "vtable-layout");
    let mut st = o.st;
    let mut pool: Vec<VirtualPtr<dyn Sh>> = vec![unsafe { mem::transmute(c) }];
    let steps = g.range(1, 12);
    g.note(|| format!("object implemented by foreign code, {steps} operation(s)"));
    for _ in 0..steps {
        if pool.is_empty() {
            break;
        }
        let i = g.us(pool.len());
        let (x, y, z) = (g.u64(), g.u64(), g.u64());
        let v = &pool[i];
        macro_rules! did { ($m:expr, $a:expr) => {{
            let a: u64 = $a;
            st = sem(st, $m, a);
            let seen = exempt(|| mem::take(unsafe { &mut (*p).seen }));
            check_eq!(seen, [($m as u32, a)], "method-dispatch");
            exempt(|| drop(seen));
            st
        }} }
        match g.us(12) {
            0 => check_eq!(v.get(), did!(0, 0), "method-result"),
            1 => check_eq!(v.m1(x), did!(1, x), "method-result"),
            2 => check_eq!(v.m2(x), did!(2, x), "method-result"),
            3 => {
                let (a, b, d, big) = (x as u8, f64::from_bits(y), z & 1 == 1, gen_big(g));
                let n = g.us(20);
                let e = g.fill(n);
                let f = *g.pick(&[c!(""), c!("a"), c!("héllo")]);
                let q = z as u16;
                let q = g.bool().then_some(&q);
                let r = v.many(a, b, big, d, e[..].into(), f, q);
                check_eq!(r.enc(), Big::gen(did!(3, enc_many(a, b, &big, d, &e, f.to_str(), q))).enc(), "method-result")
            }
            4 => {
                let b = gen_big(g);
                check_eq!(v.big(b, x).enc(), Big::gen(did!(4, mix(b.enc(), x))).enc(), "method-result")
            }
            5 => {
                let (s, w) = owned_args(g);
                let want = enc_owned(&s, w);
                let r = v.owned(s.into(), w.map(|v| Box::new(v).into()));
                check_eq!(*r, *bytes_of(did!(5, want)), "method-result")
            }
            6 => {
                v.unit();
                did!(6, 0);
            }
            7 => {
                let k = x | 1;
                let owned = g.bool();
                let r = if owned { v.cb(Box::new(move |a: u64| a.wrapping_mul(k)).into()) } else { v.cb((&mut |a: u64| a.wrapping_mul(k)).into()) };
                check_eq!(r, did!(7, mix(5u64.wrapping_mul(k), 5u64.wrapping_mul(k).wrapping_mul(k))) as i8, "method-result")
            }
            8 => check_eq!(v.pass(x, y, z), did!(8, mix(mix(x, y), z)), "method-result"),
            9 | 10 => {
                let c = v.clone();
                pool.push(c);
                g.nontrivial();
            }
            _ => {
                pool.swap_remove(i);
            }
        }
        check_eq!(unsafe { (*p).rc }, pool.len() as i64, "foreign-refcount");
    }
    drop(pool);
    check_eq!(o.rc, 0, "foreign-refcount");
    exempt(|| o.seen = vec![]);
}

// ------------------------------------------------------------ drop glue (D02)

struct Guard<P> {
    id: u64,
    hits: Arc<AtomicI64>,
    p: P,
}
impl<P> Drop for Guard<P> {
    fn drop(&mut self) {
        self.hits.fetch_add(1, SeqCst);
        died(self.id);
    }
}
fn guard<P: Payload>(hits: &Arc<AtomicI64>) -> Guard<P> {
    Guard { id: born(), hits: hits.clone(), p: P::make() }
}
enum G {
    D(DynDrop),
    V(VirtualPtr<dyn DropGlue>),
    R(Rc<ImplDropGlue<Guard<[u8; 5]>>>),
}

fn drop_glue(g: &mut Gen) {
    reset();
    let mut pool: Vec<(G, usize)> = vec![];
    let mut objs: Vec<(Arc<AtomicI64>, usize)> = vec![];
    let mut arena: Vec<*mut ImplDropGlue<Guard<Al>>> = vec![];
    let mut clones = 0;
    for _ in 0..g.range(2, 16) {
        let op = if pool.is_empty() { 0 } else { g.weighted(&[4, 4, 4, 1]) };
        let i = if pool.is_empty() { 0 } else { g.us(pool.len()) };
        match op {
            0 => {
                let hits = Arc::new(AtomicI64::new(0));
                let o = objs.len();
                let how = g.below(8);
                g.note(|| format!("guard {o} (kind {how})"));
                let mut rc = 1;
                let h = match how {
                    0 => G::D(DynDrop::new(guard::<()>(&hits))),
                    1 => G::D(DynDrop::new(guard::<Al>(&hits))),
                    2 => G::D(DynDrop::new((1u8, guard::<Vec<u8>>(&hits)))),
                    3 => G::D(DynDrop(Box::new(ClonableGuard::new(&hits)).into())),
                    4 => G::V(Box::new(ImplDropGlue(guard::<Al>(&hits))).into()),
                    5 => {
                        let r = Rc::new(ImplDropGlue(guard::<[u8; 5]>(&hits)));
                        if g.bool() {
                            rc += 1;
                            pool.push((G::R(r.clone()), o));
                        }
                        G::V(r.into())
                    }
                    6 => {
                        let b = Box::into_raw(Box::new(ImplDropGlue(guard::<Al>(&hits))));
                        arena.push(b);
                        rc += 1; // never dropped by the handle
                        unsafe { G::V(if g.bool() { (&*b).into() } else { (&mut *b).into() }) }
                    }
                    _ => {
                        let r = guard::<()>(&hits);
                        let c = 5u64;
                        G::D(DynDrop::new(move || {
                            let _ = (&r, c);
                        }))
                    }
                };
                objs.push((hits, rc));
                pool.push((h, o));
            }
            1 => {
                let o = pool[i].1;
                let c = match &pool[i].0 {
                    G::D(d) => {
                        let n0 = reg(|r| r.live.as_ref().unwrap().len());
                        let c = d.clone();
                        let n1 = reg(|r| r.live.as_ref().unwrap().len());
                        if n1 > n0 {
                            // an owned clonable value: the clone is a value of its own
                            let hits = CLONE_HITS.with(|h| h.borrow_mut().take()).unwrap();
                            pool.push((G::D(c), objs.len()));
                            objs.push((hits, 1));
                            clones += 1;
                            continue;
                        }
                        G::D(c)
                    }
                    G::R(r) => G::R(r.clone()),
                    G::V(_) => continue,
                };
                g.note(|| format!("clone a handle of guard {o}"));
                clones += 1;
                objs[o].1 += 1;
                pool.push((c, o));
            }
            2 => {
                let (h, o) = pool.swap_remove(i);
                g.note(|| format!("release a handle of guard {o}"));
                objs[o].1 -= 1;
                match h {
                    G::D(d) if g.bool() => exempt(|| std::thread::scope(|s| s.spawn(move || drop(d)).join().unwrap())),
                    h => drop(h),
                }
            }
            _ => {
                if let G::D(d) = &pool[i].0 {
                    g.note(|| format!("threads clone and release guard {}", pool[i].1));
                    // (an owned clonable value clones itself: not on threads, where hits are not collected)
                    let n0 = reg(|r| r.live.as_ref().unwrap().len());
                    let c = d.clone();
                    if reg(|r| r.live.as_ref().unwrap().len()) == n0 {
                        exempt(|| {
                            std::thread::scope(|s| {
                                for _ in 0..3 {
                                    let c = c.clone();
                                    s.spawn(move || {
                                        let d = c.clone();
                                        drop(c);
                                        drop(d.clone());
                                    });
                                }
                            })
                        });
                        clones += 1;
                        drop(c);
                    } else {
                        CLONE_HITS.with(|h| h.borrow_mut().take());
                        drop(c);
                    }
                }
            }
        }
        live_ids();
        for (o, (hits, rc)) in objs.iter().enumerate() {
            check!(hits.load(SeqCst) == (*rc == 0) as i64, "guard-drops", "guard {o} ran {} times with {rc} handle(s) left", hits.load(SeqCst));
        }
    }
    drop(pool);
    for p in &arena {
        unsafe {
            check_eq!((**p).0.hits.load(SeqCst), 0, "guard-drops");
            check!((**p).0.p.ok(), "object-corrupted", "borrowed guard corrupted");
            drop(Box::from_raw(*p));
        }
    }
    for (hits, _) in &objs {
        check_eq!(hits.load(SeqCst), 1, "guard-drops");
    }
    check_eq!(live_ids(), 0usize, "live-objects");
    if clones > 0 {
        g.nontrivial();
    }
}
thread_local!(static CLONE_HITS: std::cell::RefCell<Option<Arc<AtomicI64>>> = const { std::cell::RefCell::new(None) });
struct ClonableGuard {
    g: Guard<[u8; 5]>,
}
impl ClonableGuard {
    fn new(hits: &Arc<AtomicI64>) -> Self {
        ClonableGuard { g: guard(hits) }
    }
}
impl safer_ffi::dyn_traits::StaticDropGlue for ClonableGuard {}
impl Clone for ClonableGuard {
    fn clone(&self) -> Self {
        check!(self.g.p.ok(), "object-corrupted", "guard corrupted");
        let hits = Arc::new(AtomicI64::new(0));
        CLONE_HITS.with(|h| *h.borrow_mut() = Some(hits.clone()));
        ClonableGuard::new(&hits)
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "D01",
            rule: "objects: at least one method call and one clone in the history; foreign: at least one clone",
            subs: vec![
                Sub { name: "objects", f: objects, quick: 250_000, thorough: 6_000_000, leaks: true },
                Sub { name: "foreign", f: foreign, quick: 120_000, thorough: 2_000_000, leaks: true },
            ],
        },
        Prop {
            id: "D02",
            rule: "objects: at least one method call and one clone in the history; drop-glue: at least one clone",
            subs: vec![
                Sub { name: "drop-glue", f: drop_glue, quick: 60_000, thorough: 1_500_000, leaks: true },
                Sub { name: "objects", f: objects, quick: 150_000, thorough: 4_000_000, leaks: true },
                Sub { name: "foreign", f: foreign, quick: 50_000, thorough: 500_000, leaks: true },
            ],
        },
    ]
}
