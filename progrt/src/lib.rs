//! Run-time of the generated programs (see checks/progen.py): value generation and textual
//! serialisation on the Rust side, the log of boundary crossings, and the dumping of facts.
pub use safer_ffi;
use safer_ffi::closure::*;
use safer_ffi::prelude::*;
use safer_ffi::{ptr as sptr, option::TaggedOption, tuple::*};
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::sync::Arc;

// ------------------------------------------------------------------ randomness
pub mod options;
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    /// Bits with boundary values.
    pub fn bits(&mut self) -> u64 {
        match self.below(8) {
            0 => 0,
            1 => u64::MAX,
            2 => 1 << self.below(64),
            3 => self.below(256),
            4 => !(1u64 << self.below(64)),
            _ => self.next(),
        }
    }
    pub fn len(&mut self) -> usize {
        match self.below(8) {
            0 | 1 => 0,
            2..=6 => 1 + self.below(4) as usize,
            _ => 5 + self.below(40) as usize,
        }
    }
}
thread_local! {
    static RNG: RefCell<Rng> = RefCell::new(Rng(0));
    static SENT: RefCell<Option<String>> = RefCell::new(None);
    static BAD: Cell<bool> = Cell::new(false);
    static ARENA: RefCell<Vec<Box<dyn FnOnce()>>> = RefCell::new(vec![]);
    static LIVE_CALLABLES: Cell<i64> = Cell::new(0);
    static LIVE_OPAQUE: Cell<i64> = Cell::new(0);
    static CROSSINGS: Cell<u64> = Cell::new(0);
    static DEPTH: Cell<u32> = Cell::new(0);
}
pub fn rng<R>(f: impl FnOnce(&mut Rng) -> R) -> R {
    let mut r = Rng(RNG.with(|r| r.borrow_mut().next()));
    f(&mut r)
}
/// Kept until the end of the current call; stands for data that the lender keeps alive.
pub fn lend<T: 'static>(t: T) -> &'static mut T {
    let p = Box::into_raw(Box::new(t));
    ARENA.with(|a| a.borrow_mut().push(Box::new(move || drop(unsafe { Box::from_raw(p) }))));
    unsafe { &mut *p }
}

// ------------------------------------------------------------------ the log of crossings
/// A value is about to cross the boundary.
pub fn sent(s: String) {
    SENT.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(old) = t.take() {
            bad(&format!("never received: {old}; now sending: {s}"));
        }
        *t = Some(s)
    })
}
/// A value has crossed the boundary.
pub fn recv(s: String) {
    CROSSINGS.with(|c| c.set(c.get() + 1));
    match SENT.with(|t| t.borrow_mut().take()) {
        Some(t) if t == s => {}
        Some(t) => bad(&format!("sent: {t} received: {s}")),
        None => bad(&format!("received, but not sent: {s}")),
    }
}
pub fn bad(s: &str) {
    if !BAD.with(|b| b.replace(true)) {
        println!("MISMATCH {s}");
        use std::io::Write;
        let _ = std::io::stdout().flush();
    }
}
unsafe fn text<'r>(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
/// Entry points for the C driver. In a macro, so that each program exports them.
#[macro_export]
macro_rules! exports {
    () => {
        #[no_mangle]
        pub extern "C" fn vh_sent(p: *const u8, n: usize) {
            unsafe { $crate::c_sent(p, n) }
        }
        #[no_mangle]
        pub extern "C" fn vh_recv(p: *const u8, n: usize) {
            unsafe { $crate::c_recv(p, n) }
        }
        #[no_mangle]
        pub extern "C" fn vh_seed(s: u64) {
            $crate::c_seed(s)
        }
        #[no_mangle]
        pub extern "C" fn vh_end() -> i32 {
            $crate::c_end()
        }
        #[no_mangle]
        pub extern "C" fn vh_reset() {
            $crate::c_reset()
        }
        #[no_mangle]
        pub extern "C" fn vh_crossings() -> u64 {
            $crate::c_crossings()
        }
        #[no_mangle]
        pub unsafe extern "C" fn vh_gen(dir: *const ::std::os::raw::c_char) -> i32 {
            let dir = ::std::ffi::CStr::from_ptr(dir).to_str().unwrap();
            $crate::gen_headers(dir, __facts)
        }
        #[no_mangle]
        pub unsafe extern "C" fn vh_options(dir: *const ::std::os::raw::c_char) -> i32 {
            $crate::options::run(::std::ffi::CStr::from_ptr(dir).to_str().unwrap())
        }
    };
}
pub unsafe fn c_sent(p: *const u8, n: usize) {
    sent(text(p, n))
}
pub unsafe fn c_recv(p: *const u8, n: usize) {
    recv(text(p, n))
}
pub fn c_seed(s: u64) {
    RNG.with(|r| r.borrow_mut().0 = s);
    DEPTH.with(|d| d.set(0));
}
/// Drops what was lent during the call.
pub fn c_reset() {
    loop {
        let v: Vec<_> = ARENA.with(|a| std::mem::take(&mut *a.borrow_mut()));
        if v.is_empty() {
            break;
        }
        v.into_iter().for_each(|f| f());
    }
    ARENA.with(|a| a.borrow_mut().shrink_to_fit());
    SENT.with(|s| *s.borrow_mut() = None);
}
pub fn c_end() -> i32 {
    if let Some(s) = SENT.with(|s| s.borrow_mut().take()) {
        bad(&format!("never received: {s}"));
    }
    let n = LIVE_CALLABLES.with(|l| l.get());
    if n != 0 {
        bad(&format!("{n} callables made by Rust are still alive (negative: released too often)"));
    }
    let n = LIVE_OPAQUE.with(|l| l.get());
    if n != 0 {
        bad(&format!("{n} opaque values are still alive (negative: dropped too often)"));
    }
    BAD.with(|b| b.get() as i32)
}
pub fn c_crossings() -> u64 {
    CROSSINGS.with(|c| c.get())
}

// ------------------------------------------------------------------ values
pub trait V: Sized + 'static {
    fn gen(r: &mut Rng) -> Self;
    fn ser(&self, o: &mut String);
    /// Calls each callable within.
    fn exercise(&mut self) {}
}
pub fn s1<T: V>(label: &str, t: &T) -> String {
    let mut s = label.to_owned();
    t.ser(&mut s);
    s
}
macro_rules! ints { ($($T:ty),*) => ($(
    impl V for $T {
        fn gen(r: &mut Rng) -> Self { r.bits() as $T }
        fn ser(&self, o: &mut String) { write!(o, "{self}").unwrap() }
    }
)*)}
ints! { u8, u16, u32, u64, usize, i8, i16, i32, i64, isize }
impl V for bool {
    fn gen(r: &mut Rng) -> Self {
        r.below(2) == 1
    }
    fn ser(&self, o: &mut String) {
        o.push_str(match unsafe { *(self as *const bool).cast::<u8>() } {
            0 => "F",
            1 => "T",
            _ => "invalid-bool",
        })
    }
}
impl V for f32 {
    fn gen(r: &mut Rng) -> Self {
        f32::from_bits(r.bits() as u32)
    }
    fn ser(&self, o: &mut String) {
        write!(o, "f{:x}", self.to_bits()).unwrap()
    }
}
impl V for f64 {
    fn gen(r: &mut Rng) -> Self {
        f64::from_bits(r.bits())
    }
    fn ser(&self, o: &mut String) {
        write!(o, "d{:x}", self.to_bits()).unwrap()
    }
}
impl V for safer_ffi::c_char {
    fn gen(r: &mut Rng) -> Self {
        unsafe { std::mem::transmute(r.bits() as u8) }
    }
    fn ser(&self, o: &mut String) {
        write!(o, "{}", unsafe { *(self as *const Self).cast::<u8>() }).unwrap()
    }
}
impl V for () {
    fn gen(_: &mut Rng) {}
    fn ser(&self, o: &mut String) {
        o.push('_')
    }
}
impl<T: 'static> V for std::marker::PhantomData<T> {
    fn gen(_: &mut Rng) -> Self {
        Self
    }
    fn ser(&self, _: &mut String) {}
}
fn addr<T: ?Sized>(o: &mut String, p: *const T) {
    write!(o, "p{:x}", p as *const () as usize).unwrap()
}
impl<T: 'static> V for *const T {
    fn gen(r: &mut Rng) -> Self {
        r.bits() as usize as _
    }
    fn ser(&self, o: &mut String) {
        addr(o, *self)
    }
}
impl<T: 'static> V for *mut T {
    fn gen(r: &mut Rng) -> Self {
        r.bits() as usize as _
    }
    fn ser(&self, o: &mut String) {
        addr(o, *self)
    }
}
impl<T: 'static> V for std::ptr::NonNull<T> {
    fn gen(r: &mut Rng) -> Self {
        std::ptr::NonNull::new((r.bits() & !63 | 64) as usize as _).unwrap()
    }
    fn ser(&self, o: &mut String) {
        addr(o, self.as_ptr())
    }
}
macro_rules! nonnulls { ($($N:ident)*) => ($(
    impl<T: 'static> V for sptr::$N<T> {
        fn gen(r: &mut Rng) -> Self {
            sptr::$N::from(std::ptr::NonNull::new((r.bits() & !63 | 64) as usize as *mut T).unwrap())
        }
        fn ser(&self, o: &mut String) {
            addr(o, unsafe { *(self as *const Self).cast::<*const T>() })
        }
    }
)*)}
nonnulls! { NonNullRef NonNullMut NonNullOwned }
impl<T: V> V for &'static T {
    fn gen(r: &mut Rng) -> Self {
        lend(T::gen(r))
    }
    fn ser(&self, o: &mut String) {
        o.push('&');
        T::ser(self, o)
    }
}
impl<T: V> V for &'static mut T {
    fn gen(r: &mut Rng) -> Self {
        lend(T::gen(r))
    }
    fn ser(&self, o: &mut String) {
        o.push('&');
        T::ser(self, o)
    }
    fn exercise(&mut self) {
        T::exercise(self)
    }
}
impl<T: V> V for safer_ffi::boxed::Box_<T> {
    fn gen(r: &mut Rng) -> Self {
        Box::new(T::gen(r)).into()
    }
    fn ser(&self, o: &mut String) {
        o.push('&');
        T::ser(self, o)
    }
    fn exercise(&mut self) {
        T::exercise(self)
    }
}
/// Rust's `Option`, of types which C sees as nullable pointers.
impl<T: V> V for Option<T> {
    fn gen(r: &mut Rng) -> Self {
        (r.below(3) != 0).then(|| T::gen(r))
    }
    fn ser(&self, o: &mut String) {
        match self {
            Some(t) => t.ser(o),
            None => o.push('N'),
        }
    }
    fn exercise(&mut self) {
        self.iter_mut().for_each(V::exercise)
    }
}
impl<T: V> V for TaggedOption<T> {
    fn gen(r: &mut Rng) -> Self {
        (r.below(3) != 0).then(|| T::gen(r)).into()
    }
    fn ser(&self, o: &mut String) {
        match self {
            TaggedOption::Some(t) => {
                o.push_str("S(");
                t.ser(o);
                o.push(')')
            }
            TaggedOption::None => o.push('-'),
        }
    }
    fn exercise(&mut self) {
        if let TaggedOption::Some(t) = self {
            t.exercise()
        }
    }
}
fn list<T: V>(o: &mut String, l: &[T]) {
    o.push('[');
    for x in l {
        x.ser(o);
        o.push(',');
    }
    o.push(']');
}
fn hex(o: &mut String, b: &[u8]) {
    o.push('"');
    for x in b {
        write!(o, "{x:02x}").unwrap();
    }
    o.push('"');
}
fn vec<T: V>(r: &mut Rng) -> Vec<T> {
    let n = r.len();
    let mut v = Vec::with_capacity(n + r.below(2) as usize * r.below(9) as usize);
    for _ in 0..n {
        v.push(T::gen(r))
    }
    v
}
fn string(r: &mut Rng) -> String {
    let n = r.len();
    (0..n).map(|_| match r.below(4) {
        0 => char::from_u32(1 + r.below(0xd7ff) as u32).unwrap(),
        1 => char::from_u32(0x10000 + r.below(0x100000) as u32).unwrap(),
        _ => (b' ' + r.below(95) as u8) as char,
    }).collect()
}
impl<T: V, const N: usize> V for [T; N] {
    fn gen(r: &mut Rng) -> Self {
        std::array::from_fn(|_| T::gen(r))
    }
    fn ser(&self, o: &mut String) {
        list(o, self)
    }
    fn exercise(&mut self) {
        self.iter_mut().for_each(V::exercise)
    }
}
impl<T: V> V for c_slice::Ref<'static, T> {
    fn gen(r: &mut Rng) -> Self {
        (&**lend(vec::<T>(r))).into()
    }
    fn ser(&self, o: &mut String) {
        list(o, self.as_slice())
    }
}
impl<T: V> V for c_slice::Mut<'static, T> {
    fn gen(r: &mut Rng) -> Self {
        (&mut **lend(vec::<T>(r))).into()
    }
    fn ser(&self, o: &mut String) {
        list(o, self)
    }
}
impl<T: V> V for c_slice::Box<T> {
    fn gen(r: &mut Rng) -> Self {
        vec::<T>(r).into_boxed_slice().into()
    }
    fn ser(&self, o: &mut String) {
        list(o, self)
    }
    fn exercise(&mut self) {
        self.iter_mut().for_each(V::exercise)
    }
}
impl<T: V> V for c_slice::Raw<T> {
    fn gen(r: &mut Rng) -> Self {
        let (ptr, len) = ((r.bits() & !63 | 64) as usize as *mut T, r.bits() as usize);
        unsafe { std::mem::transmute_copy(&(ptr, len)) }
    }
    fn ser(&self, o: &mut String) {
        let (p, n): (usize, usize) = unsafe { std::mem::transmute_copy(self) };
        write!(o, "r{p:x}:{n}").unwrap()
    }
}
impl<T: V> V for repr_c::Vec<T> {
    fn gen(r: &mut Rng) -> Self {
        vec::<T>(r).into()
    }
    fn ser(&self, o: &mut String) {
        list(o, self)
    }
    fn exercise(&mut self) {
        self.with_rust_mut(|v| v.iter_mut().for_each(V::exercise))
    }
}
impl V for repr_c::String {
    fn gen(r: &mut Rng) -> Self {
        string(r).into()
    }
    fn ser(&self, o: &mut String) {
        hex(o, self.as_bytes())
    }
}
impl V for str::Ref<'static> {
    fn gen(r: &mut Rng) -> Self {
        (&**lend(string(r))).into()
    }
    fn ser(&self, o: &mut String) {
        hex(o, self.as_bytes())
    }
}
impl V for str::Box {
    fn gen(r: &mut Rng) -> Self {
        string(r).into_boxed_str().into()
    }
    fn ser(&self, o: &mut String) {
        hex(o, self.as_bytes())
    }
}
impl V for char_p::Ref<'static> {
    fn gen(r: &mut Rng) -> Self {
        let s: &'static str_ = &**lend(string(r) + "\0");
        s.try_into().unwrap()
    }
    fn ser(&self, o: &mut String) {
        hex(o, self.to_bytes())
    }
}
#[allow(non_camel_case_types)]
type str_ = std::primitive::str;
impl V for char_p::Box {
    fn gen(r: &mut Rng) -> Self {
        (string(r) + "\0").try_into().unwrap()
    }
    fn ser(&self, o: &mut String) {
        hex(o, self.to_bytes())
    }
}
impl V for char_p::Raw {
    fn gen(r: &mut Rng) -> Self {
        unsafe { std::mem::transmute((r.bits() & !63 | 64) as usize) }
    }
    fn ser(&self, o: &mut String) {
        addr(o, unsafe { *(self as *const Self).cast::<*const u8>() })
    }
}
macro_rules! tuples { ($( $N:ident $($T:ident $f:tt)* ;)*) => ($(
    impl<$($T: V),*> V for $N<$($T),*> {
        fn gen(r: &mut Rng) -> Self { $N { $($f: V::gen(r)),* } }
        fn ser(&self, o: &mut String) { o.push('{'); $( self.$f.ser(o); o.push(','); )* o.push('}') }
        fn exercise(&mut self) { $( self.$f.exercise(); )* }
    }
)*)}
tuples! {
    Tuple1 A _0;
    Tuple2 A _0 B _1;
    Tuple3 A _0 B _1 C _2;
    Tuple4 A _0 B _1 C _2 D _3;
    Tuple5 A _0 B _1 C _2 D _3 E _4;
    Tuple6 A _0 B _1 C _2 D _3 E _4 F _5;
}

/// An opaque type for C.
pub struct Secret {
    magic: u64,
}
const MAGIC: u64 = 0x5ec2e7_5ec2e7;
impl Secret {
    pub fn new() -> Self {
        LIVE_OPAQUE.with(|l| l.set(l.get() + 1));
        Secret { magic: MAGIC }
    }
    pub fn check(&self) {
        if self.magic != MAGIC {
            bad("a pointer to an opaque value does not point to one");
        }
    }
}
impl Drop for Secret {
    fn drop(&mut self) {
        self.check();
        self.magic = 0;
        LIVE_OPAQUE.with(|l| l.set(l.get() - 1));
    }
}

/// The types of the standard library that are opaque for C.
pub trait Mk: Sized {
    fn mk() -> Self;
}
macro_rules! std_opaques { ($( $T:ty, $e:expr, |$s:pat_param| $check:expr; )*) => ($(
    impl Mk for $T {
        fn mk() -> Self { $e }
    }
    impl V for $T {
        fn gen(_: &mut Rng) -> Self { <$T>::mk() }
        fn ser(&self, o: &mut String) {
            let $s = self;
            $check;
            write!(o, "o{:x}", self as *const Self as usize).unwrap()
        }
    }
)*)}
fn known<T: PartialEq>(a: T, b: T) {
    if a != b {
        bad("a pointer to an opaque value does not point to one");
    }
}
static SHARED: Secret = Secret { magic: MAGIC };
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::{Mutex, RwLock};
std_opaques! {
    Vec<Secret>, vec![Secret::new(), Secret::new()], |s| { known(s.len(), 2); s.iter().for_each(Secret::check) };
    std::string::String, "opaque text".into(), |s| known(&s[..], "opaque text");
    Rc<Secret>, Rc::new(Secret::new()), |s| s.check();
    Arc<Secret>, Arc::new(Secret::new()), |s| s.check();
    std::boxed::Box<Secret>, std::boxed::Box::new(Secret::new()), |s| s.check();
    RefCell<Secret>, RefCell::new(Secret::new()), |s| s.borrow().check();
    Mutex<Secret>, Mutex::new(Secret::new()), |s| s.lock().unwrap().check();
    RwLock<Vec<Secret>>, RwLock::new(vec![Secret::new()]), |s| s.read().unwrap()[0].check();
    BTreeMap<u32, Secret>, std::iter::once((7, Secret::new())).collect(), |s| s[&7].check();
    HashMap<std::string::String, Option<Secret>>, std::iter::once(("key".into(), Some(Secret::new()))).collect(), |s| s["key"].as_ref().unwrap().check();
    safer_ffi::layout::Opaque<Secret>, safer_ffi::layout::Opaque { concrete: Secret::new() }, |s| s.check();
    safer_ffi::layout::Opaque<(Secret, [u8; 3])>, safer_ffi::layout::Opaque { concrete: (Secret::new(), [1, 2, 3]) }, |s| { s.0.check(); known(s.1, [1, 2, 3]) };
    &'static str, "static text", |s| known(&s[..], "static text");
    &'static [Secret], std::slice::from_ref(&SHARED), |s| s[0].check();
}

// ------------------------------------------------------------------ callables
/// Counts the live environments of the callables made by Rust.
pub struct Env(());
impl Env {
    pub fn new() -> Self {
        LIVE_CALLABLES.with(|l| l.set(l.get() + 1));
        Env(())
    }
}
impl Drop for Env {
    fn drop(&mut self) {
        LIVE_CALLABLES.with(|l| l.set(l.get() - 1));
    }
}
/// Runs `f` unless calls are nested too deeply (a callable received by a callable…).
pub fn nested(f: impl FnOnce()) {
    let d = DEPTH.with(|d| d.replace(d.get() + 1));
    if d < 3 {
        f()
    }
    DEPTH.with(|d| d.set(d.get() - 1));
}
pub fn exercise_all<T: V>(t: &mut T) {
    nested(|| t.exercise())
}
macro_rules! args_ser { ($o:ident $($a:ident)*) => ({ $( $a.ser(&mut $o); $o.push(','); )* }) }
macro_rules! callables { ($( $n:literal $Box:ident $Arc:ident $Ref:ident ($($A:ident $a:ident)*) ;)*) => ($(
    const _: () = {
        /// What a callable made by Rust does.
        #[allow(unused_mut)]
        fn callee<R: V $(, $A: V)*>($(mut $a: $A),*) -> R {
            let mut s = String::from("cb(");
            args_ser!(s $($a)*);
            recv(s);
            $( exercise_all(&mut $a); )*
            let _ = ( $( $a, )* );
            let r = rng(R::gen);
            sent(s1("=", &r));
            r
        }
        extern "C" fn rf<R: V $(, $A: V)*>($($a: $A),*) -> R {
            callee::<R $(, $A)*>($($a),*)
        }
        #[allow(unused_mut)]
        fn caller<R: V $(, $A: V)*>(f: impl FnOnce($($A),*) -> R) {
            $( let mut $a = rng($A::gen); )*
            let mut s = String::from("cb(");
            args_ser!(s $($a)*);
            sent(s);
            let mut r = f($($a),*);
            recv(s1("=", &r));
            exercise_all(&mut r);
        }
        impl<R: V + ReprC $(, $A: V + ReprC)*> V for extern "C" fn($($A),*) -> R {
            fn gen(_: &mut Rng) -> Self { rf::<R $(, $A)*> }
            fn ser(&self, o: &mut String) { o.push('#') }
            fn exercise(&mut self) { let f = *self; for _ in 0..2 { caller::<R $(, $A)*>(|$($a),*| f($($a),*)) } }
        }
        impl<R: V + ReprC $(, $A: V + ReprC)*> V for unsafe extern "C" fn($($A),*) -> R {
            fn gen(_: &mut Rng) -> Self { rf::<R $(, $A)*> }
            fn ser(&self, o: &mut String) { o.push('#') }
            fn exercise(&mut self) { let f = *self; caller::<R $(, $A)*>(|$($a),*| unsafe { f($($a),*) }) }
        }
        impl<R: V + ReprC $(, $A: V + ReprC)*> V for $Box<R $(, $A)*> {
            fn gen(_: &mut Rng) -> Self {
                let e = Env::new();
                $Box::new(Box::new(move |$($a),*| { let _ = &e; callee::<R $(, $A)*>($($a),*) }))
            }
            fn ser(&self, o: &mut String) { o.push('#') }
            fn exercise(&mut self) { for _ in 0..2 { caller::<R $(, $A)*>(|$($a),*| self.call($($a),*)) } }
        }
        impl<R: V + ReprC $(, $A: V + ReprC)*> V for $Arc<R $(, $A)*> {
            fn gen(_: &mut Rng) -> Self {
                let e = SyncEnv(Env::new());
                $Arc::new(Arc::new(move |$($a),*| { let _ = &e; callee::<R $(, $A)*>($($a),*) }))
            }
            fn ser(&self, o: &mut String) { o.push('#') }
            fn exercise(&mut self) {
                let c = self.clone();
                caller::<R $(, $A)*>(|$($a),*| self.call($($a),*));
                *self = c;
                caller::<R $(, $A)*>(|$($a),*| self.call($($a),*));
            }
        }
        impl<R: V + ReprC $(, $A: V + ReprC)*> V for $Ref<'static, R $(, $A)*> {
            fn gen(_: &mut Rng) -> Self {
                let e = Env::new();
                $Ref::new(lend(move |$($a),*| { let _ = &e; callee::<R $(, $A)*>($($a),*) }))
            }
            fn ser(&self, o: &mut String) { o.push('#') }
            fn exercise(&mut self) { for _ in 0..2 { caller::<R $(, $A)*>(|$($a),*| self.call($($a),*)) } }
        }
    };
)*)}
struct SyncEnv(#[allow(dead_code)] Env);
unsafe impl Send for SyncEnv {}
unsafe impl Sync for SyncEnv {}
callables! {
    0 BoxDynFnMut0 ArcDynFn0 RefDynFnMut0 ();
    1 BoxDynFnMut1 ArcDynFn1 RefDynFnMut1 (A1 a1);
    2 BoxDynFnMut2 ArcDynFn2 RefDynFnMut2 (A1 a1 A2 a2);
    3 BoxDynFnMut3 ArcDynFn3 RefDynFnMut3 (A1 a1 A2 a2 A3 a3);
    4 BoxDynFnMut4 ArcDynFn4 RefDynFnMut4 (A1 a1 A2 a2 A3 a3 A4 a4);
    5 BoxDynFnMut5 ArcDynFn5 RefDynFnMut5 (A1 a1 A2 a2 A3 a3 A4 a4 A5 a5);
    6 BoxDynFnMut6 ArcDynFn6 RefDynFnMut6 (A1 a1 A2 a2 A3 a3 A4 a4 A5 a5 A6 a6);
    7 BoxDynFnMut7 ArcDynFn7 RefDynFnMut7 (A1 a1 A2 a2 A3 a3 A4 a4 A5 a5 A6 a6 A7 a7);
    8 BoxDynFnMut8 ArcDynFn8 RefDynFnMut8 (A1 a1 A2 a2 A3 a3 A4 a4 A5 a5 A6 a6 A7 a7 A8 a8);
    9 BoxDynFnMut9 ArcDynFn9 RefDynFnMut9 (A1 a1 A2 a2 A3 a3 A4 a4 A5 a5 A6 a6 A7 a7 A8 a8 A9 a9);
}

/// Of `dyn Trait`s: values of their virtual pointers.
pub trait DynV: safer_ffi::dyn_traits::ReprCTrait + 'static {
    fn gen() -> VirtualPtr<Self>;
    fn exercise(p: &mut VirtualPtr<Self>);
}
impl<T: ?Sized + DynV> V for VirtualPtr<T> {
    fn gen(_: &mut Rng) -> Self {
        T::gen()
    }
    fn ser(&self, o: &mut String) {
        o.push('#')
    }
    fn exercise(&mut self) {
        T::exercise(self)
    }
}

// ------------------------------------------------------------------ facts
use safer_ffi::headers::{self, languages, Language};
use safer_ffi::layout::{CLayoutOf, CType, ConcreteReprC};
pub use safer_ffi::layout;

pub struct Facts {
    out: String,
}
pub fn q(s: &str_) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c)
            }
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o + "\""
}
impl Facts {
    fn put(&mut self, key: &str_, v: String) {
        if !self.out.is_empty() {
            self.out.push_str(",\n");
        }
        write!(self.out, "{}: {v}", q(key)).unwrap();
    }
    /// Of a type that can be used by value.
    pub fn ty<T: ConcreteReprC>(&mut self, id: &str_) {
        type L<T> = CLayoutOf<T>;
        let v = format!(
            "{{\"size\": {}, \"align\": {}, \"lsize\": {}, \"lalign\": {}, \"short\": {}, \"c\": {}, \"cs\": {}, \"py\": {}, \"short2\": {}}}",
            std::mem::size_of::<T>(),
            std::mem::align_of::<T>(),
            std::mem::size_of::<L<T>>(),
            std::mem::align_of::<L<T>>(),
            q(&L::<T>::short_name()),
            q(&L::<T>::name_wrapping_var(&languages::C, "@")),
            q(&L::<T>::name(&languages::CSharp)),
            q(&L::<T>::name_wrapping_var(&languages::Python, "@")),
            q(&L::<T>::short_name()),
        );
        self.put(&format!("ty:{id}"), v);
    }
    pub fn fields<T>(&mut self, id: &str_, f: impl FnOnce(*const T) -> Vec<(&'static str_, usize, usize)>) {
        let m = std::mem::MaybeUninit::<T>::uninit();
        let p = m.as_ptr();
        let v: Vec<_> = f(p).into_iter().map(|(n, a, s)| format!("[{}, {}, {s}]", q(n), a - p as usize)).collect();
        self.put(&format!("fields:{id}"), format!("[{}]", v.join(", ")));
    }
    pub fn value(&mut self, id: &str_, v: String) {
        self.put(&format!("value:{id}"), q(&v));
    }
}
pub fn size_of_ptr<T>(_: *const T) -> usize {
    std::mem::size_of::<T>()
}
pub fn hexs(s: &str_) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}
pub fn gen_headers(dir: &str_, facts: fn(&mut Facts)) -> i32 {
    let mut bad = 0;
    for (l, ext) in [(Language::C, "h"), (Language::CSharp, "cs"), (Language::Python, "cffi")] {
        let r = std::panic::catch_unwind(|| {
            headers::builder().with_language(l).to_file(format!("{dir}/header.{ext}"))?.generate()
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => {
                eprintln!("GENERATION-ERROR {ext}: {e}");
                bad = 1
            }
            Err(_) => {
                eprintln!("GENERATION-PANIC {ext}");
                bad = 1
            }
        }
    }
    let r = std::panic::catch_unwind(|| {
        let mut f = Facts { out: String::new() };
        facts(&mut f);
        f.out
    });
    match r {
        Ok(o) => std::fs::write(format!("{dir}/facts.json"), format!("{{{o}}}\n")).unwrap(),
        Err(_) => {
            eprintln!("GENERATION-PANIC facts");
            bad = 1
        }
    }
    bad
}

// ------------------------------------------------------------------ async exports
pub mod exec {
    use std::{future::Future, pin::pin, sync::atomic::*, sync::Arc, task::*};
    struct W(AtomicU64);
    impl Wake for W {
        fn wake(self: Arc<Self>) {
            self.0.fetch_add(1, Ordering::SeqCst);
        }
    }
    /// Polls again only after a wake; a task that would sleep forever is a mismatch.
    pub fn block_on<F: Future>(f: F) -> F::Output {
        let mut f = pin!(f);
        let w = Arc::new(W(AtomicU64::new(0)));
        let waker = Waker::from(w.clone());
        loop {
            let before = w.0.load(Ordering::SeqCst);
            if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
                return r;
            }
            if w.0.load(Ordering::SeqCst) == before {
                crate::bad("an exported async fn waits for ever");
            }
        }
    }
}
pub use exec::block_on;
/// Pending that many times
pub struct Yield(pub u32);
impl std::future::Future for Yield {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 == 0 {
            return std::task::Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}
