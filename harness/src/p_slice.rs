//! S02: slices, vectors, boxes and strings. Model = a `Vec<u64>` of element values; every
//! element with identity registers its creation and its drop.
use crate::alloc::exempt;
use crate::engine::*;
use crate::{check, check_eq, fail};
use safer_ffi::prelude::*;
use safer_ffi::slice::{slice_boxed, slice_mut, slice_raw, slice_ref};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::mem::{self, ManuallyDrop};

thread_local! {
    static LIVE: RefCell<HashMap<u64, i32>> = RefCell::new(HashMap::new());
    static NEXT: Cell<u64> = const { Cell::new(1) };
    static BAD: Cell<u64> = const { Cell::new(0) };
    /// Countdown to a panic in `clone`.
    static CLONE_PANIC: Cell<u32> = const { Cell::new(0) };
    /// value whose drop panics
    static DROP_PANIC: Cell<u64> = const { Cell::new(u64::MAX) };
}
fn born() -> u64 {
    exempt(|| {
        let id = NEXT.with(|n| n.replace(n.get() + 1));
        LIVE.with(|l| l.borrow_mut().insert(id, 1));
        id
    })
}
fn died(id: u64) {
    exempt(|| {
        let r = LIVE.with(|l| l.borrow_mut().remove(&id));
        if r.is_none() {
            BAD.with(|b| b.set(id | 1 << 63));
        }
    })
}
fn live() -> usize {
    LIVE.with(|l| l.borrow().len())
}
fn begin() {
    exempt(|| LIVE.with(|l| l.borrow_mut().clear()));
    BAD.with(|b| b.set(0));
    CLONE_PANIC.with(|c| c.set(0));
    DROP_PANIC.with(|c| c.set(u64::MAX));
}
fn drops_ok(sig: &str) {
    let b = BAD.with(|b| b.get());
    check!(b == 0, sig, "an element was dropped twice (or never existed): id {}", b & !(1 << 63));
}

/// An element type. `COUNTED` types check that each instance is dropped exactly once.
pub trait Elem: ReprC + Clone + PartialEq + Eq + PartialOrd + Ord + Hash + std::fmt::Debug + Send {
    const COUNTED: bool;
    const ZST: bool = false;
    fn make(v: u64) -> Self;
    fn val(&self) -> u64;
    fn set(&mut self, v: u64);
}
macro_rules! ints { ($($T:ty),*) => ($(
    impl Elem for $T {
        const COUNTED: bool = false;
        fn make(v: u64) -> Self { v as $T }
        fn val(&self) -> u64 { *self as u64 & 0xff }
        fn set(&mut self, v: u64) { *self = v as $T }
    }
)*)}
ints! { u8, u16, u32, u64, usize }

macro_rules! counted { ($D:ident $([$attr:ident($a:literal)])?, $repr:meta) => (
    #[derive_ReprC]
    #[$repr]
    pub struct $D { id: u64, v: u64 }
    impl Elem for $D {
        const COUNTED: bool = true;
        fn make(v: u64) -> Self { $D { id: born(), v } }
        fn val(&self) -> u64 { self.v }
        fn set(&mut self, v: u64) { self.v = v }
    }
    impl Drop for $D {
        fn drop(&mut self) {
            died(self.id);
            self.id = u64::MAX >> 1;
            if DROP_PANIC.with(|d| d.get()) == self.v && !std::thread::panicking() {
                DROP_PANIC.with(|d| d.set(u64::MAX));
                exempt(|| std::panic::panic_any("drop panics"));
            }
        }
    }
    impl Clone for $D {
        fn clone(&self) -> Self {
            CLONE_PANIC.with(|c| match c.get() {
                0 => {}
                1 => { c.set(0); exempt(|| std::panic::panic_any("clone panics")) }
                n => c.set(n - 1),
            });
            $D::make(self.v)
        }
    }
    impl PartialEq for $D { fn eq(&self, o: &Self) -> bool { self.v == o.v } }
    impl Eq for $D {}
    impl PartialOrd for $D { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.v.partial_cmp(&o.v) } }
    impl Ord for $D { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.v.cmp(&o.v) } }
    impl Hash for $D { fn hash<H: Hasher>(&self, h: &mut H) { self.v.hash(h) } }
    impl std::fmt::Debug for $D { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "D{}", self.v) } }
)}
counted!(D, repr(C));

#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Odd {
    a: u8,
    b: u16,
    c: u8,
}
impl Elem for Odd {
    const COUNTED: bool = false;
    fn make(v: u64) -> Self {
        Odd { a: v as u8, b: v as u16 & 0xff, c: v as u8 }
    }
    fn val(&self) -> u64 {
        if self.a as u16 != self.b || self.a != self.c {
            fail!("torn-element", "element {self:?} is torn")
        }
        self.a as u64
    }
    fn set(&mut self, v: u64) {
        *self = Elem::make(v)
    }
}

/// Wide alignment.
#[derive_ReprC]
#[repr(opaque)]
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Wide(W, D);
#[repr(align(64))]
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct W(u64);
impl Elem for Wide {
    const COUNTED: bool = true;
    fn make(v: u64) -> Self {
        Wide(W(v), D::make(v))
    }
    fn val(&self) -> u64 {
        if self as *const _ as usize % 64 != 0 {
            fail!("misaligned", "over-aligned element at {self:p}")
        }
        if self.0 .0 != self.1.v {
            fail!("torn-element", "element {self:?} is torn")
        }
        self.1.v
    }
    fn set(&mut self, v: u64) {
        self.0 .0 = v;
        self.1.v = v;
    }
}

/// Zero-sized, counted by number only.
#[derive_ReprC]
#[repr(opaque)]
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Zst(());
thread_local!(static ZLIVE: Cell<i64> = const { Cell::new(0) });
impl Elem for Zst {
    const COUNTED: bool = false;
    const ZST: bool = true;
    fn make(_: u64) -> Self {
        ZLIVE.with(|z| z.set(z.get() + 1));
        Zst(())
    }
    fn val(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
}
impl Clone for Zst {
    fn clone(&self) -> Self {
        Zst::make(0)
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        ZLIVE.with(|z| z.set(z.get() - 1));
    }
}

fn norm<T: Elem>(v: u64) -> u64 {
    if T::ZST {
        0
    } else {
        v & 0xff
    }
}
fn vals<T: Elem>(s: &[T]) -> Vec<u64> {
    s.iter().map(|e| e.val()).collect()
}
fn count<T: Elem>() -> usize {
    if T::ZST {
        ZLIVE.with(|z| z.get()) as usize
    } else {
        live()
    }
}

fn gen_model<T: Elem>(g: &mut Gen) -> Vec<u64> {
    let n = match g.weighted(&[2, 6, 2, 1]) {
        0 => 0,
        1 => g.range(1, 5),
        2 => g.range(6, 20),
        _ => g.range(21, 200),
    };
    let b = g.fill(n);
    b.into_iter().map(|x| norm::<T>(x as u64)).collect()
}
fn rust_vec<T: Elem>(g: &mut Gen, m: &[u64]) -> Vec<T> {
    let mut v = match g.below(3) {
        0 => Vec::new(),
        1 => Vec::with_capacity(m.len()),
        _ => Vec::with_capacity(m.len() + g.range(1, 30)),
    };
    v.extend(m.iter().map(|&x| T::make(x)));
    v
}
fn new_model<T: Elem>(g: &mut Gen) -> (Vec<T>, Vec<u64>) {
    let m = gen_model::<T>(g);
    (rust_vec(g, &m), m)
}

enum H<T: Elem> {
    V(repr_c::Vec<T>),
    S(c_slice::Box<T>),
    B(repr_c::Box<T>),
}
impl<T: Elem> H<T> {
    fn slice(&self) -> &[T] {
        match self {
            H::V(v) => v,
            H::S(s) => s,
            H::B(b) => std::slice::from_ref(&**b),
        }
    }
    fn slice_mut(&mut self) -> &mut [T] {
        match self {
            H::V(v) => v,
            H::S(s) => s,
            H::B(b) => std::slice::from_mut(&mut **b),
        }
    }
    fn name(&self) -> &'static str {
        match self {
            H::V(_) => "vec",
            H::S(_) => "slice box",
            H::B(_) => "box",
        }
    }
}

/// The C view.
#[repr(C)]
#[derive(Clone, Copy)]
struct CVec {
    ptr: *mut u8,
    len: usize,
    cap: usize,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct CSlice {
    ptr: *mut u8,
    len: usize,
}
extern "C" fn c_vec_id(v: CVec) -> CVec {
    v
}
extern "C" fn c_slice_id(v: CSlice) -> CSlice {
    v
}

fn hash_of<X: Hash + ?Sized>(x: &X) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// A random program over a `std::vec::Vec`, mirrored on the model. May panic at its end.
fn vec_program<T: Elem>(g: &mut Gen, v: &mut Vec<T>, m: &mut Vec<u64>) -> bool {
    let k = g.range(0, 5);
    for _ in 0..k {
        let x = norm::<T>(g.below(256));
        match g.below(14) {
            0 | 1 => {
                v.push(T::make(x));
                m.push(x)
            }
            2 => check_eq!(v.pop().map(|e| e.val()), m.pop(), "with_rust_mut"),
            3 => {
                let i = g.us(m.len() + 1);
                v.insert(i, T::make(x));
                m.insert(i, x)
            }
            4 if !m.is_empty() => {
                let i = g.us(m.len());
                check_eq!(v.remove(i).val(), m.remove(i), "with_rust_mut");
            }
            5 => {
                let n = g.us(m.len() + 2);
                v.truncate(n);
                m.truncate(n)
            }
            6 => {
                v.clear();
                m.clear()
            }
            7 => v.reserve(g.range(0, 64)),
            8 => v.shrink_to_fit(),
            9 => {
                let n = g.range(0, 40);
                v.extend((0..n).map(|i| T::make(norm::<T>(i as u64))));
                m.extend((0..n).map(|i| norm::<T>(i as u64)));
            }
            10 => {
                let a = g.us(m.len() + 1);
                let b = a + g.us(m.len() - a + 1);
                drop(v.drain(a..b));
                drop(m.drain(a..b));
            }
            11 => {
                let (nv, nm) = new_model::<T>(g);
                *v = nv;
                *m = nm;
            }
            12 => {
                let t = mem::take(v);
                check_eq!(vals(&t), *m, "with_rust_mut");
                m.clear();
            }
            _ => {
                v.reverse();
                m.reverse()
            }
        }
    }
    if g.chance(1, 4) {
        g.label("panics in with_rust_mut");
        exempt(|| std::panic::panic_any("user panic"))
    }
    true
}

fn containers<T: Elem>(g: &mut Gen, tname: &'static str) {
    begin();
    ZLIVE.with(|z| z.set(0));
    let mut pool: Vec<(H<T>, Vec<u64>)> = vec![];
    let steps = g.range(1, 16);
    let mut changes = 0;
    g.label(tname);
    g.note(|| format!("element type {tname}"));
    for _ in 0..steps {
        let op = if pool.is_empty() { g.us(4) } else { g.us(22) };
        let i = if pool.is_empty() { 0 } else { g.us(pool.len()) };
        match op {
            0 => {
                let (v, m) = new_model::<T>(g);
                let (p, l, c) = (v.as_ptr(), v.len(), v.capacity());
                g.note(|| format!("Vec from rust Vec len {l} cap {c}"));
                let r: repr_c::Vec<T> = v.into();
                let raw: CVec = unsafe { mem::transmute_copy(&r) };
                check_eq!((raw.ptr as usize, raw.len, raw.cap), (p as usize, l, c), "vec-layout");
                pool.push((H::V(r), m));
            }
            1 => {
                let (v, m) = new_model::<T>(g);
                g.note(|| format!("Box<[T]> len {}", m.len()));
                let b = v.into_boxed_slice();
                let (p, l) = (b.as_ptr(), b.len());
                let r: c_slice::Box<T> = b.into();
                let raw: CSlice = unsafe { mem::transmute_copy(&r) };
                check_eq!((raw.ptr as usize, raw.len), (p as usize, l), "slice-layout");
                pool.push((H::S(r), m));
            }
            2 => {
                let x = norm::<T>(g.below(256));
                g.note(|| format!("Box({x})"));
                let r: repr_c::Box<T> = if g.bool() {
                    safer_ffi::boxed::Box_::new(T::make(x))
                } else {
                    let b = Box::new(T::make(x));
                    let p = &*b as *const T;
                    let r: repr_c::Box<T> = b.into();
                    let raw: *const T = unsafe { mem::transmute_copy(&r) };
                    check_eq!(raw, p, "box-layout");
                    r
                };
                pool.push((H::B(r), vec![x]));
            }
            3 => match g.below(4) {
                0 => pool.push((H::V(repr_c::Vec::EMPTY), vec![])),
                1 => pool.push((H::S(Default::default()), vec![])),
                2 => pool.push((H::V(safer_ffi::c_vec![]), vec![])),
                _ => {
                    let x = norm::<T>(g.below(256));
                    pool.push((H::V(safer_ffi::c_vec![T::make(x), T::make(1), T::make(x)]), vec![x, norm::<T>(1), x]))
                }
            },
            4 | 5 => {
                let (h, m) = &mut pool[i];
                let name = h.name();
                g.note(|| format!("write through {name} #{i}"));
                if !m.is_empty() {
                    changes += 1;
                    let (a, b, x) = (g.us(m.len()), g.us(m.len()), norm::<T>(g.below(256)));
                    match g.below(4) {
                        0 => {
                            h.slice_mut().swap(a, b);
                            m.swap(a, b)
                        }
                        1 => {
                            h.slice_mut()[a].set(x);
                            m[a] = x
                        }
                        2 => {
                            h.slice_mut()[a] = T::make(x);
                            m[a] = x
                        }
                        _ => {
                            h.slice_mut().sort();
                            m.sort()
                        }
                    }
                }
            }
            6 | 7 | 8 => {
                // with_rust_mut
                if let (H::V(v), m) = &mut pool[i] {
                    changes += 1;
                    g.note(|| format!("with_rust_mut #{i}"));
                    let r = {
                        let (g, m) = (&mut *g, &mut *m);
                        panics(|| v.with_rust_mut(|rv| vec_program(g, rv, m)))
                    };
                    g.note(|| format!("  -> {r:?}"));
                }
            }
            9 | 10 => {
                // clone, possibly panicking
                let n = pool[i].1.len();
                let bomb = T::COUNTED && n > 0 && g.chance(1, 4);
                if bomb {
                    CLONE_PANIC.with(|c| c.set(g.range(1, n) as u32));
                }
                g.note(|| format!("clone #{i}{}", if bomb { " (panics)" } else { "" }));
                let c = panics(|| match &pool[i].0 {
                    H::V(v) => H::V(v.clone()),
                    H::S(v) => H::S(v.clone()),
                    H::B(v) => H::B(v.clone()),
                });
                CLONE_PANIC.with(|c| c.set(0));
                check_eq!(c.is_err(), bomb, "clone");
                if let Ok(c) = c {
                    check_eq!(vals(c.slice()), pool[i].1, "clone");
                    let m = pool[i].1.clone();
                    pool.push((c, m));
                }
            }
            11 | 12 => {
                // into the rust type
                let (h, m) = pool.swap_remove(i);
                g.note(|| format!("{} #{i} into its Rust type", h.name()));
                match h {
                    H::V(v) => {
                        let raw: CVec = unsafe { mem::transmute_copy(&v) };
                        let mut r: Vec<T> = v.into();
                        check_eq!((r.as_ptr() as usize, r.len(), r.capacity()), (raw.ptr as usize, raw.len, if T::ZST { r.capacity() } else { raw.cap }), "into-vec");
                        check_eq!(vals(&r), m, "into-vec");
                        if g.bool() {
                            r.push(T::make(3));
                            r.shrink_to_fit();
                        }
                    }
                    H::S(v) => {
                        let p = v.as_ptr();
                        let r: Box<[T]> = v.into();
                        check_eq!((r.as_ptr(), r.len()), (p, m.len()), "into-box-slice");
                        check_eq!(vals(&r), m, "into-box-slice");
                        if g.bool() {
                            let mut v = r.into_vec();
                            v.push(T::make(3));
                        }
                    }
                    H::B(v) => {
                        let p = &*v as *const T;
                        let r: Box<T> = v.into();
                        check_eq!(&*r as *const T, p, "into-box");
                        check_eq!(r.val(), m[0], "into-box");
                        if g.bool() {
                            drop(*r)
                        }
                    }
                }
            }
            13 => {
                // drop, possibly with a panicking element
                let (h, m) = pool.swap_remove(i);
                let bomb = T::COUNTED && !m.is_empty() && g.chance(1, 3);
                g.note(|| format!("drop {} #{i}{}", h.name(), if bomb { " (an element panics)" } else { "" }));
                if bomb {
                    DROP_PANIC.with(|d| d.set(m[g.us(m.len())]));
                }
                let r = panics(|| drop(h));
                DROP_PANIC.with(|d| d.set(u64::MAX));
                check_eq!(r.is_err(), bomb, "drop");
            }
            14 | 15 => {
                // through C by value
                let (h, m) = pool.swap_remove(i);
                g.note(|| format!("{} #{i} by value through C", h.name()));
                let h = match h {
                    H::V(v) => unsafe {
                        let raw: CVec = mem::transmute(v);
                        check_eq!(raw.len, m.len(), "through-c");
                        let r = c_vec_id(raw);
                        if g.bool() {
                            // C takes only the first two fields as a slice
                            let s: slice_ref<'_, T> = mem::transmute(CSlice { ptr: r.ptr, len: r.len });
                            check_eq!(vals(&s), m, "through-c");
                        }
                        H::V(mem::transmute(r))
                    },
                    H::S(v) => unsafe {
                        let r: Option<c_slice::Box<T>> = mem::transmute(c_slice_id(mem::transmute(v)));
                        check!(r.is_some(), "through-c", "a non-null slice box read back as None");
                        H::S(r.unwrap())
                    },
                    H::B(v) => unsafe {
                        let p: *mut T = mem::transmute(v);
                        check_eq!((*p).val(), m[0], "through-c");
                        H::B(mem::transmute(p))
                    },
                };
                pool.push((h, m));
            }
            16 => {
                // comparisons, hashes, debug
                let j = g.us(pool.len());
                if let (H::S(a), H::S(b)) = (&pool[i].0, &pool[j].0) {
                    let (m, n) = (&pool[i].1, &pool[j].1);
                    check_eq!(a == b, m == n, "slice-eq");
                    check_eq!(a.cmp(b), m.cmp(n), "slice-ord");
                    check_eq!(a.partial_cmp(b), m.partial_cmp(n), "slice-ord");
                    check_eq!(hash_of(a), hash_of(&a[..]), "slice-hash");
                }
                let (a, b) = (pool[i].0.slice(), pool[j].0.slice());
                let (m, n) = (&pool[i].1, &pool[j].1);
                let (ra, rb): (c_slice::Ref<'_, T>, c_slice::Ref<'_, T>) = (a.into(), b.into());
                check_eq!(ra == rb, m == n, "slice-eq");
                check_eq!(ra.cmp(&rb), m.cmp(n), "slice-ord");
                check_eq!(ra.partial_cmp(&rb), m.partial_cmp(n), "slice-ord");
                check_eq!(hash_of(&ra), hash_of(a), "slice-hash");
                check_eq!(format!("{ra:?}"), format!("{a:?}"), "debug");
                {
                    // ... and through exclusive views (of equal elements)
                    let mut c: Vec<T> = m.iter().map(|v| T::make(*v)).collect();
                    let mut d: Vec<T> = n.iter().map(|v| T::make(*v)).collect();
                    let (mc, md): (slice_mut<'_, T>, slice_mut<'_, T>) = (c[..].as_mut().into(), d[..].as_mut().into());
                    check_eq!(mc == md, m == n, "slice-eq");
                    check_eq!(mc != md, m != n, "slice-eq");
                    check_eq!(mc.cmp(&md), m.cmp(n), "slice-ord");
                    check_eq!(mc.partial_cmp(&md), m.partial_cmp(n), "slice-ord");
                    check_eq!(hash_of(&mc), hash_of(a), "slice-hash");
                }
                match &pool[i].0 {
                    H::V(v) => check_eq!(format!("{v:?}"), format!("{a:?}"), "debug"),
                    H::B(v) => check_eq!(format!("{v:?}"), format!("{:?}", a[0]), "debug"),
                    H::S(_) => {}
                }
            }
            17 | 18 => {
                // shared views
                let (h, m) = &pool[i];
                let s: c_slice::Ref<'_, T> = match h {
                    H::V(v) => v.as_ref(),
                    H::S(v) if g.bool() => v.as_ref(),
                    h => h.slice().into(),
                };
                let t = s;
                check_eq!(vals(&s), *m, "ref");
                check_eq!(vals(t.as_slice()), *m, "ref");
                check_eq!((s.as_ptr(), s.len()), (h.slice().as_ptr(), h.slice().len()), "ref");
                let raw: CSlice = unsafe { mem::transmute_copy(&s) };
                check_eq!((raw.ptr as usize, raw.len), (h.slice().as_ptr() as usize, m.len()), "ref-layout");
                let r = slice_raw::from(s);
                check_eq!((r.ptr.as_ptr() as *const T, r.len), (h.slice().as_ptr(), m.len()), "raw");
                check_eq!(vals(&unsafe { r.as_ref() }), *m, "raw");
                if let H::S(v) = h {
                    check_eq!(vals(v.as_slice()), *m, "ref");
                }
                check_eq!(<c_slice::Ref<'_, T>>::default().len(), 0, "default");
                check_eq!(<c_slice::Mut<'_, T>>::default().len(), 0, "default");
            }
            19 | 20 => {
                // exclusive views
                let (h, m) = &mut pool[i];
                let at = h.slice().as_ptr();
                let x = norm::<T>(g.below(256));
                let how = g.below(6);
                let k = if m.is_empty() { None } else { Some(g.us(m.len())) };
                g.note(|| format!("exclusive view ({how}) of #{i}"));
                let mut s: slice_mut<'_, T> = match &mut *h {
                    H::V(v) => v.as_mut(),
                    H::S(v) if g.bool() => v.as_mut(),
                    h => h.slice_mut().into(),
                };
                check_eq!((s.as_ptr(), s.len()), (at, m.len()), "mut");
                check_eq!(vals(&s), *m, "mut");
                check_eq!(vals(&s.as_ref()), *m, "mut");
                check_eq!(format!("{s:?}"), format!("{:?}", &s[..]), "debug");
                check_eq!(hash_of(&s), hash_of(&s[..]), "slice-hash");
                if let Some(k) = k {
                    changes += 1;
                    m[k] = x;
                    match how {
                        0 => s[k].set(x),
                        1 => s.as_mut()[k] = T::make(x),
                        2 => s.as_slice()[k].set(x),
                        3 => {
                            let mut r = slice_raw::from(s);
                            check_eq!((r.ptr.as_ptr() as *const T, r.len), (at, m.len()), "raw");
                            unsafe { r.as_mut()[k].set(x) };
                        }
                        4 => {
                            s.as_mut().as_mut().as_slice()[k].set(x);
                            let r = slice_ref::from(s);
                            check_eq!(vals(&r), *m, "mut");
                        }
                        _ => {
                            if let H::S(v) = h {
                                v.as_slice_mut()[k].set(x)
                            } else {
                                h.slice_mut()[k].set(x)
                            }
                        }
                    }
                }
            }
            _ => {
                // convert between kinds
                let (h, m) = pool.swap_remove(i);
                changes += 1;
                let h = match h {
                    H::V(v) => H::S(Vec::from(v).into_boxed_slice().into()),
                    H::S(v) => H::V(<Box<[T]>>::from(v).into_vec().into()),
                    H::B(b) => {
                        let b: Box<T> = b.into();
                        H::V(vec![*b].into())
                    }
                };
                pool.push((h, m));
            }
        }
        drops_ok("double-drop");
        let mut n = 0;
        for (h, m) in &pool {
            check_eq!(vals(h.slice()), *m, "contents");
            n += m.len();
        }
        if T::COUNTED || T::ZST {
            check_eq!(count::<T>(), n, "live-elements");
        }
    }
    drop(pool);
    drops_ok("double-drop");
    if T::COUNTED || T::ZST {
        check_eq!(count::<T>(), 0usize, "live-elements");
    }
    if changes > 0 {
        g.nontrivial();
    }
}

fn machine(g: &mut Gen) {
    match g.below(8) {
        0 | 1 | 2 => containers::<D>(g, "counted"),
        3 => containers::<u8>(g, "u8"),
        4 => containers::<Odd>(g, "odd struct"),
        5 => containers::<Wide>(g, "align 64"),
        6 => containers::<Zst>(g, "zero-sized"),
        _ => containers::<u32>(g, "u32"),
    }
}

fn text(g: &mut Gen) -> String {
    let n = match g.below(4) {
        0 => 0,
        1 => g.range(1, 4),
        2 => g.range(5, 30),
        _ => g.range(31, 300),
    };
    let seed = g.below(1 << 32);
    let mut r = Rng::new(seed, 78, n as u64);
    (0..n).map(|_| ['a', '\0', 'é', '\u{7ff}', '\u{ffff}', '😀', '"', '\n'][(r.next() % 8) as usize]).collect()
}

enum S {
    O(repr_c::String),
    B(str::Box),
}
impl S {
    fn get(&self) -> &std::primitive::str {
        match self {
            S::O(s) => s,
            S::B(s) => s,
        }
    }
}

fn string_program(g: &mut Gen, s: &mut String, m: &mut String) {
    for _ in 0..g.range(0, 5) {
        let t = text(g);
        match g.below(9) {
            0 => {
                s.push_str(&t);
                m.push_str(&t)
            }
            1 => check_eq!(s.pop(), m.pop(), "string-with_rust_mut"),
            2 => {
                s.insert_str(0, &t);
                m.insert_str(0, &t)
            }
            3 => {
                s.clear();
                m.clear()
            }
            4 => s.reserve(g.range(0, 80)),
            5 => s.shrink_to_fit(),
            6 => {
                *s = t.clone();
                *m = t
            }
            7 => {
                check_eq!(mem::take(s), *m, "string-with_rust_mut");
                m.clear()
            }
            _ => {
                if !m.is_empty() {
                    check_eq!(s.remove(0), m.remove(0), "string-with_rust_mut")
                }
            }
        }
    }
    if g.chance(1, 4) {
        g.label("panics in with_rust_mut");
        exempt(|| std::panic::panic_any("user panic"))
    }
}

fn strings(g: &mut Gen) {
    let mut pool: Vec<(S, String)> = vec![];
    let steps = g.range(1, 14);
    let mut changes = 0;
    for _ in 0..steps {
        let op = if pool.is_empty() { g.us(3) } else { g.us(14) };
        let i = if pool.is_empty() { 0 } else { g.us(pool.len()) };
        match op {
            0 => {
                let t = text(g);
                let mut s = String::with_capacity(t.len() + g.us(2) * g.range(1, 40));
                s.push_str(&t);
                let want = (s.as_ptr() as usize, s.len(), s.capacity());
                g.note(|| format!("String len {} cap {}", want.1, want.2));
                let r: repr_c::String = s.into();
                let raw: CVec = unsafe { mem::transmute_copy(&r) };
                check_eq!((raw.ptr as usize, raw.len, raw.cap), want, "string-layout");
                pool.push((S::O(r), t));
            }
            1 => {
                let t = text(g);
                let r: str::Box = match g.below(3) {
                    0 => (&*t).into(),
                    1 => t.clone().into(),
                    _ => {
                        let b = t.clone().into_boxed_str();
                        let p = b.as_ptr();
                        let r: str::Box = b.into();
                        check_eq!(r.as_ptr(), p, "str-box-layout");
                        r
                    }
                };
                let raw: CSlice = unsafe { mem::transmute_copy(&r) };
                check_eq!((raw.ptr as usize, raw.len), (r.as_ptr() as usize, t.len()), "str-box-layout");
                pool.push((S::B(r), t));
            }
            2 => {
                let t = text(g);
                pool.push(if g.bool() { (S::O(repr_c::String::EMPTY), "".into()) } else { (S::O((&*t).into()), t) });
            }
            3 | 4 | 5 => {
                if let (S::O(s), m) = &mut pool[i] {
                    changes += 1;
                    g.note(|| format!("with_rust_mut #{i}"));
                    let (g, m) = (&mut *g, &mut *m);
                    let _ = panics(|| s.with_rust_mut(|s| string_program(g, s, m)));
                }
            }
            6 => {
                if let (S::O(s), m) = &pool[i] {
                    let c = s.clone();
                    check_eq!(*c, **m, "string-clone");
                    check!(m.is_empty() || c.as_ptr() != s.as_ptr(), "string-clone", "the clone shares the buffer");
                    let m = m.clone();
                    pool.push((S::O(c), m));
                }
            }
            7 => {
                let (s, m) = pool.swap_remove(i);
                changes += 1;
                match s {
                    S::O(s) => {
                        let raw: CVec = unsafe { mem::transmute_copy(&s) };
                        let mut r: String = s.into();
                        check_eq!((r.as_ptr() as usize, r.len(), r.capacity()), (raw.ptr as usize, raw.len, raw.cap), "into-string");
                        check_eq!(r, m, "into-string");
                        r.push('x');
                    }
                    S::B(s) => {
                        let p = s.as_ptr();
                        if g.bool() {
                            let r: Box<std::primitive::str> = s.into();
                            check_eq!((r.as_ptr(), &*r), (p, &*m), "into-box-str");
                        } else {
                            let mut r: String = s.into();
                            check_eq!(r, m, "into-string");
                            r.push('x');
                        }
                    }
                }
            }
            8 => {
                g.note(|| format!("drop #{i}"));
                drop(pool.swap_remove(i))
            }
            9 => {
                let (s, m) = &pool[i];
                match s {
                    S::O(s) => {
                        check_eq!(format!("{s:?}|{s}|{s:>9.2}"), format!("{m:?}|{m}|{m:>9.2}"), "string-fmt");
                    }
                    S::B(s) => {
                        check_eq!(format!("{s:?}"), format!("{m:?}"), "string-fmt");
                        let r: &std::primitive::str = AsRef::<std::primitive::str>::as_ref(s);
                        check_eq!(r, &**m, "str-box");
                        let r = s.as_ref();
                        check_eq!(r.as_str(), m, "str-box");
                    }
                }
            }
            10 | 11 => {
                let (s, m) = &pool[i];
                let r: str::Ref<'_> = s.get().into();
                let r2 = r;
                check_eq!(r.as_str(), m, "str-ref");
                check_eq!(&*r2, m, "str-ref");
                check_eq!(r.as_str().as_ptr(), s.get().as_ptr(), "str-ref");
                check_eq!(AsRef::<std::primitive::str>::as_ref(&r), &**m, "str-ref");
                check_eq!(format!("{r:?}"), format!("{m:?}"), "str-ref");
                check_eq!(String::from(r), *m, "str-ref");
                let raw: CSlice = unsafe { mem::transmute_copy(&r) };
                check_eq!((raw.ptr as usize, raw.len), (s.get().as_ptr() as usize, m.len()), "str-ref-layout");
            }
            12 => {
                let (s, m) = pool.swap_remove(i);
                let s = match s {
                    S::O(s) => unsafe { S::O(mem::transmute(c_vec_id(mem::transmute(s)))) },
                    S::B(s) => unsafe { S::B(mem::transmute(c_slice_id(mem::transmute(s)))) },
                };
                pool.push((s, m));
            }
            _ => {
                // convert between kinds
                let (s, m) = pool.swap_remove(i);
                changes += 1;
                let s = match s {
                    S::O(s) => S::B(String::from(s).into()),
                    S::B(s) => S::O(String::from(s).into()),
                };
                pool.push((s, m));
            }
        }
        for (s, m) in &pool {
            check_eq!(s.get(), &**m, "string-contents");
        }
    }
    if changes > 0 {
        g.nontrivial();
    }
}

/// `ptr::NonNullOwned`'s release helpers.
fn owned_ptr(g: &mut Gen) {
    begin();
    ZLIVE.with(|z| z.set(0));
    fn go<T: Elem>(g: &mut Gen) {
        let x = norm::<T>(g.below(256));
        let how = g.below(3);
        g.note(|| format!("NonNullOwned of a {}-byte value, helper {how}", mem::size_of::<T>()));
        let p = Box::into_raw(Box::new(T::make(x)));
        let mut o: safer_ffi::ptr::NonNullOwned<T> = std::ptr::NonNull::new(p).unwrap().into();
        check_eq!((o.as_ptr(), o.as_mut_ptr()), (p as *const T, p), "owned-ptr");
        let erased = o.copy().cast::<u8>();
        unsafe {
            match how {
                0 => erased.drop_in_place_and_dealloc::<T>(),
                1 => {
                    let v = ManuallyDrop::new(p.read());
                    erased.dealloc::<T>();
                    check_eq!(v.val(), x, "owned-ptr");
                    drop(ManuallyDrop::into_inner(v));
                }
                _ => {
                    o.copy().cast::<u8>().drop_in_place::<T>();
                    erased.dealloc::<T>();
                }
            }
        }
        drops_ok("double-drop");
        if T::COUNTED || T::ZST {
            check_eq!(count::<T>(), 0usize, "live-elements");
        }
    }
    match g.below(5) {
        0 => go::<D>(g),
        1 => go::<u8>(g),
        2 => go::<Odd>(g),
        3 => go::<Wide>(g),
        _ => go::<Zst>(g),
    }
    g.nontrivial();
}

/// Values behind a layout that is opaque for C, boxed and borrowed.
fn opaques(g: &mut Gen) {
    use safer_ffi::layout::Opaque;
    begin();
    ZLIVE.with(|z| z.set(0));
    fn go<T: Elem>(g: &mut Gen) {
        let mut x = norm::<T>(g.below(256));
        let how = g.below(4);
        g.note(|| format!("Opaque of a {}-byte value, way {how}", mem::size_of::<T>()));
        let b = Box::new(T::make(x));
        let p = &*b as *const T;
        let mut o: repr_c::Box<Opaque<T>> = match how {
            0 | 1 => b.into(),
            2 => Box::<Opaque<T>>::from(b).into(),
            _ => {
                // by reference only
                let mut b = b;
                {
                    let r: &Opaque<T> = (&*b).into();
                    check_eq!((r as *const _ as usize, r.val(), r.concrete.val()), (p as usize, x, x), "opaque-ref");
                }
                let y = norm::<T>(g.below(256));
                {
                    let r: &mut Opaque<T> = (&mut *b).into();
                    check_eq!((r as *mut _ as usize, r.val()), (p as usize, x), "opaque-mut");
                    r.set(y);
                }
                check_eq!(b.val(), if T::ZST { x } else { y }, "opaque-mut");
                x = b.val();
                b.into()
            }
        };
        let raw: *const T = unsafe { mem::transmute_copy(&o) };
        check_eq!(raw, p, "opaque-box");
        for _ in 0..g.range(0, 3) {
            let y = norm::<T>(g.below(256));
            if g.bool() {
                o.set(y);
            } else {
                o.concrete = T::make(y);
            }
            x = if T::ZST { x } else { y };
            check_eq!((o.val(), (**o).val()), (x, x), "opaque-contents");
        }
        if T::COUNTED || T::ZST {
            check_eq!(count::<T>(), 1usize, "live-elements");
        }
        match g.below(3) {
            0 => drop(o),
            1 => drop(o.into()),
            _ => {
                let b: Box<Opaque<T>> = o.into();
                let Opaque { concrete } = *b;
                check_eq!(concrete.val(), x, "opaque-contents");
            }
        }
        drops_ok("double-drop");
        if T::COUNTED || T::ZST {
            check_eq!(count::<T>(), 0usize, "live-elements");
        }
    }
    match g.below(5) {
        0 => go::<D>(g),
        1 => go::<u8>(g),
        2 => go::<Odd>(g),
        3 => go::<Wide>(g),
        _ => go::<Zst>(g),
    }
    g.nontrivial();
}

/// Views and vectors on several threads (`Send`), with drops on another thread.
fn threads(g: &mut Gen) {
    let m: Vec<u64> = g.fill(40).into_iter().map(|x| x as u64).collect();
    let v: repr_c::Vec<u64> = m.clone().into();
    let s: c_slice::Box<u64> = m.clone().into_boxed_slice().into();
    let b: repr_c::Box<u64> = Box::new(m[0]).into();
    let st: repr_c::String = "abc".into();
    let k = g.us(m.len());
    let (mut v, m2) = (v, m.clone());
    {
        let (a, c) = v.split_at_mut(k);
        let (mut a, mut c): (c_slice::Mut<'_, u64>, c_slice::Mut<'_, u64>) = (a.into(), c.into());
        exempt(|| {
            std::thread::scope(|sc| {
                sc.spawn(|| a.iter_mut().for_each(|x| *x += 1));
                sc.spawn(|| c.iter_mut().for_each(|x| *x += 1));
            })
        });
    }
    check_eq!(*v, *m2.iter().map(|x| x + 1).collect::<Vec<_>>(), "threads");
    let r = exempt(|| {
        std::thread::scope(|sc| {
            sc.spawn(move || {
                let r = (s.iter().sum::<u64>(), *b, v.len(), st.len());
                drop((s, b, v, st));
                r
            })
            .join()
            .unwrap()
        })
    });
    check_eq!(r, (m.iter().sum::<u64>(), m[0], m.len(), 3), "threads");
    g.nontrivial();
}

pub fn props() -> Vec<Prop> {
    let _ = slice_boxed::<u8>::as_slice;
    vec![Prop {
        id: "S02",
        rule: "containers, strings: at least one write, in-place modification or conversion; owned-pointer, threads: all",
        subs: vec![
            Sub { name: "containers", f: machine, quick: 250_000, thorough: 6_000_000, leaks: true },
            Sub { name: "strings", f: strings, quick: 150_000, thorough: 4_000_000, leaks: true },
            Sub { name: "owned-pointer", f: owned_ptr, quick: 40_000, thorough: 400_000, leaks: true },
            Sub { name: "opaque", f: opaques, quick: 40_000, thorough: 400_000, leaks: true },
            Sub { name: "threads", f: threads, quick: 2_000, thorough: 40_000, leaks: true },
        ],
    }]
}
