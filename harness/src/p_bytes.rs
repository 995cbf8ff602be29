//! Bytes: stateful, model-based tests. Model of a handle = the byte string it must show.
use crate::alloc::{allocs, exempt};
use crate::engine::*;
use crate::{check, check_eq, fail};
use safer_ffi::bytes::{Bytes, BytesVt};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::io::Read;
use std::ops::Bound;
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Content,
    Owner,
    Alloc,
    Downcast,
    Values,
    #[cfg(feature = "stabby")]
    Stabby,
}

const MAX: usize = Bytes::MAX_INLINE_SIZE;

static RAW_ERR: AtomicUsize = AtomicUsize::new(0);

/// Backing store behind a user-provided vtable.
struct Raw {
    data: Vec<u8>,
    refs: AtomicIsize,
    cap: usize,
    has_retain: bool,
}
unsafe extern "C" fn raw_retain(o: *const (), cap: usize) {
    let r = &*(o as *const Raw);
    if r.cap != cap {
        RAW_ERR.fetch_or(1, SeqCst);
    }
    if r.refs.fetch_add(1, SeqCst) <= 0 {
        RAW_ERR.fetch_or(2, SeqCst);
    }
}
unsafe extern "C" fn raw_release(o: *const (), cap: usize) {
    let r = &*(o as *const Raw);
    if r.cap != cap {
        RAW_ERR.fetch_or(1, SeqCst);
    }
    let n = r.refs.fetch_sub(1, SeqCst);
    if n <= 0 {
        RAW_ERR.fetch_or(4, SeqCst);
    }
    if n == 1 {
        // the resource is gone: scribble over it
        let r = &mut *(o as *mut Raw);
        r.data.iter_mut().for_each(|b| *b = !*b);
    }
}
static VT_SHARED: BytesVt = BytesVt { retain: Some(raw_retain), release: Some(raw_release) };
static VT_UNIQUE: BytesVt = BytesVt { retain: None, release: Some(raw_release) };
unsafe extern "C" fn borrowed_retain(_: *const (), _: usize) {}
static VT_BORROWED: BytesVt = BytesVt { retain: Some(borrowed_retain), release: None };
static VT_BORROWED_NOCLONE: BytesVt = BytesVt { retain: None, release: None };

/// An `AsRef<[u8]>` owner which scribbles its contents when dropped.
struct Blob {
    data: Vec<u8>,
    lo: usize,
    hi: usize,
    drops: Arc<AtomicUsize>,
}
impl AsRef<[u8]> for Blob {
    fn as_ref(&self) -> &[u8] {
        &self.data[self.lo..self.hi]
    }
}
impl Drop for Blob {
    fn drop(&mut self) {
        self.data.iter_mut().for_each(|b| *b = !*b);
        self.drops.fetch_add(1, SeqCst);
    }
}
/// An owner without any heap data, with a large alignment (exercises `Arc<T>` pointer handling).
#[repr(align(64))]
struct Inlined64([u8; 50]);
impl AsRef<[u8]> for Inlined64 {
    fn as_ref(&self) -> &[u8] {
        &self.0[3..]
    }
}
/// Zero-sized owner of static data.
struct Zst;
static ZST_DATA: [u8; 77] = [0x5A; 77];
impl AsRef<[u8]> for Zst {
    fn as_ref(&self) -> &[u8] {
        &ZST_DATA
    }
}

static STATIC: [u8; 4096] = {
    let mut a = [0u8; 4096];
    let mut i = 0;
    while i < 4096 {
        a[i] = (i as u32 * 167 % 251) as u8;
        i += 1;
    }
    a
};

struct Arena {
    ptr: *mut u8,
    len: usize,
}
impl Arena {
    fn new(v: Vec<u8>) -> Arena {
        let b = v.into_boxed_slice();
        let len = b.len();
        Arena { ptr: Box::into_raw(b).cast(), len }
    }
    /// The lifetime is a lie, the model keeps track of it.
    fn get(&self) -> &'static [u8] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
    fn scribble(&self) {
        for i in 0..self.len {
            unsafe { *self.ptr.add(i) = !*self.ptr.add(i) }
        }
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        unsafe { drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(self.ptr, self.len))) }
    }
}

#[derive(Clone, Debug)]
struct Meta {
    /// Which arena the handle's type-level lifetime is tied to, if any.
    dep: Option<usize>,
    /// Index of the `Arc<[u8]>` it is derived from by clones/upgrades and (if !whole) slicing.
    arc: Option<usize>,
    /// Never sliced since created from that Arc.
    whole: bool,
    /// The arc it must downcast to was allocated by clone/upgrade.
    fresh_arc: bool,
    /// May be backed by an `Arc<[u8]>` the library made: its length.
    lib_arc: Option<usize>,
    /// Derived from Blob / Raw number…
    blob: Option<usize>,
    raw: Option<usize>,
}
const NOMETA: Meta = Meta { dep: None, arc: None, whole: false, fresh_arc: false, lib_arc: None, blob: None, raw: None };

/// A reference-counted byte slice some handle may be backed by.
#[derive(Clone)]
enum AnyArc {
    Std(Arc<[u8]>),
    #[cfg(feature = "stabby")]
    Stabby(stabby::sync::ArcSlice<u8>),
}
/// The kind clone/upgrade/copied_from_slice allocate, per their documentation.
const LIB_STABBY: bool = cfg!(feature = "stabby");
impl AnyArc {
    fn stabby(&self) -> bool {
        !matches!(self, AnyArc::Std(_))
    }
    fn strong(&self) -> usize {
        match self {
            AnyArc::Std(a) => Arc::strong_count(a),
            #[cfg(feature = "stabby")]
            AnyArc::Stabby(a) => stabby::sync::ArcSlice::strong_count(a),
        }
    }
    fn get(&self) -> &[u8] {
        match self {
            AnyArc::Std(a) => a,
            #[cfg(feature = "stabby")]
            AnyArc::Stabby(a) => a,
        }
    }
    fn into_bytes(self) -> Bytes<'static> {
        match self {
            AnyArc::Std(a) => a.into(),
            #[cfg(feature = "stabby")]
            AnyArc::Stabby(a) => a.into(),
        }
    }
    fn try_from_bytes(b: Bytes<'static>, to_stabby: bool) -> Result<AnyArc, Bytes<'static>> {
        #[cfg(feature = "stabby")]
        if to_stabby {
            return stabby::sync::ArcSlice::<u8>::try_from(b).map(AnyArc::Stabby);
        }
        let _ = to_stabby;
        Arc::<[u8]>::try_from(b).map(AnyArc::Std)
    }
}
enum AnyBlob {
    Std(Arc<Blob>),
    #[cfg(feature = "stabby")]
    Stabby(stabby::sync::Arc<Blob>),
}
impl AnyBlob {
    fn strong(&self) -> usize {
        match self {
            AnyBlob::Std(a) => Arc::strong_count(a),
            #[cfg(feature = "stabby")]
            AnyBlob::Stabby(a) => stabby::sync::Arc::strong_count(a),
        }
    }
}

struct H {
    b: Bytes<'static>,
    m: Vec<u8>,
    k: Meta,
}

struct World {
    hs: Vec<H>,
    arenas: Vec<Option<Arena>>,
    arcs: Vec<AnyArc>,
    blobs: Vec<(Arc<AtomicUsize>, Option<AnyBlob>)>,
    raws: Vec<*mut Raw>,
}

fn size(g: &mut Gen) -> usize {
    match g.weighted(&[6, 4, 4, 3, 1]) {
        0 => *g.pick(&[0, 1, MAX, MAX + 1, MAX - 1, 39, 40, 41, MAX + 7, 64, 7, 8, 16]),
        1 => g.range(0, MAX),
        2 => g.range(MAX + 1, 80),
        3 => g.range(80, 300),
        _ => g.range(300, 3000),
    }
}

thread_local! {
    /// The latest construction, and the allocations the library made for it (where counted).
    static LAST: std::cell::Cell<(&'static str, usize)> = std::cell::Cell::new(("", 0));
}
/// What the documentation promises of a fresh handle, whatever its predictions and operations agree on.
fn fresh_promises(h: &H) {
    let (name, did) = LAST.with(|l| l.get());
    let n = h.m.len();
    let (clone, upgrade) = (h.b.clone_will_allocate(), h.b.upgrade_will_allocate());
    let at = h.b.as_slice().as_ptr() as usize;
    let me = &h.b as *const Bytes<'_> as usize;
    let inline = n == 0 || (at >= me && at < me + std::mem::size_of::<Bytes<'_>>());
    match name {
        "from_static" | "from(&'static [u8])" => {
            check!(!upgrade, "static-upgrade", "{name} of {n} bytes says upgrading will allocate");
            check!(!clone, "static-clone", "{name} of {n} bytes says cloning will allocate");
        }
        "from_slice" => {
            check!(
                upgrade == (n > MAX),
                "from_slice-upgrade",
                "from_slice of {n} bytes: upgrade_will_allocate() = {upgrade}"
            );
            check!(!clone, "from_slice-clone", "from_slice of {n} bytes says cloning will allocate");
            check!(n > MAX || inline, "from_slice-inline", "from_slice of {n} bytes does not inline them");
        }
        "inline_slice" => {
            check!(!clone && !upgrade, "inline-allocates", "inline_slice of {n} bytes: clone {clone}, upgrade {upgrade}");
            check!(inline, "inline_slice-inline", "inline_slice of {n} bytes does not inline them");
        }
        "copied_from_slice" => {
            check!(
                (did > 0) == (n > MAX),
                "copied_from_slice-allocations",
                "copied_from_slice of {n} bytes made {did} allocation(s)"
            );
            check!(!clone && !upgrade, "copied-allocates", "copied_from_slice of {n} bytes: clone {clone}, upgrade {upgrade}");
        }
        "from(Arc<[u8]>)" | "from(Arc<T>)" | "from(Vec)" | "from(Box<[u8]>)" => {
            check!(!upgrade, "owned-upgrade", "{name} of {n} bytes says upgrading will allocate");
        }
        _ => {}
    }
    if matches!(name, "from(Arc<[u8]>)" | "from(Arc<T>)") {
        check!(!clone, "arc-clone", "{name} of {n} bytes says cloning will allocate");
    }
}

/// `catch` a construction in the harness's own code.
fn construct(g: &mut Gen, w: &mut World) -> H {
    let n = size(g);
    #[cfg(feature = "stabby")]
    if g.chance(1, 2) {
        return construct_stabby(g, w, n);
    }
    let kind = g.below(17);
    let data = g.fill(n);
    let mut k = NOMETA;
    let (name, b): (&'static str, Bytes<'static>) = match kind {
        0 => {
            let off = g.us(4096 - n + 1);
            let s = &STATIC[off..off + n];
            let b = Bytes::from_static(s);
            return finish(g, "from_static", b, s.to_vec(), k, n);
        }
        1 => {
            let off = g.us(4096 - n + 1);
            let s: &'static [u8] = &STATIC[off..off + n];
            return finish(g, "from(&'static [u8])", s.into(), s.to_vec(), k, n);
        }
        2 | 3 | 4 => {
            let a = Arena::new(data.clone());
            let s = a.get();
            w.arenas.push(Some(a));
            k.dep = Some(w.arenas.len() - 1);
            ("from_slice", Bytes::from_slice(s))
        }
        5 => match Bytes::inline_slice(&data) {
            Some(b) => {
                check!(n <= MAX, "inline_slice-accepts-too-long", "inline_slice accepted {n} bytes");
                ("inline_slice", b)
            }
            None => {
                check!(n > MAX, "inline_slice-rejects-short", "inline_slice rejected {n} bytes");
                ("from(Vec)", data.clone().into())
            }
        },
        6 => {
            k.lib_arc = Some(n);
            let n0 = allocs();
            let b = Bytes::copied_from_slice(&data);
            LAST.with(|l| l.set(("", allocs() - n0)));
            ("copied_from_slice", b)
        }
        7 => {
            let mut v = Vec::with_capacity(n + g.us(40));
            v.extend_from_slice(&data);
            ("from(Vec)", v.into())
        }
        8 => ("from(Box<[u8]>)", data.clone().into_boxed_slice().into()),
        9 | 10 => {
            let a: Arc<[u8]> = data.clone().into();
            w.arcs.push(AnyArc::Std(a.clone()));
            k.arc = Some(w.arcs.len() - 1);
            k.whole = true;
            ("from(Arc<[u8]>)", a.into())
        }
        11 | 12 => {
            let drops = Arc::new(AtomicUsize::new(0));
            let lo = g.us(5);
            let extra = g.us(5);
            let mut d = vec![7u8; lo];
            d.extend_from_slice(&data);
            d.extend(std::iter::repeat(9).take(extra));
            let a = Arc::new(Blob { data: d, lo, hi: lo + n, drops: drops.clone() });
            let keep = g.bool().then(|| AnyBlob::Std(a.clone()));
            w.blobs.push((drops, keep));
            k.blob = Some(w.blobs.len() - 1);
            ("from(Arc<T>)", a.into())
        }
        13 => {
            if g.bool() {
                let mut x = [0u8; 50];
                for i in 0..50 {
                    x[i] = data.get(i).copied().unwrap_or(i as u8);
                }
                return finish(g, "from(Arc<align64>)", Arc::new(Inlined64(x)).into(), x[3..].to_vec(), k, n);
            } else {
                return finish(g, "from(Arc<zst>)", Arc::new(Zst).into(), ZST_DATA.to_vec(), k, n);
            }
        }
        14 | 15 => {
            let (cap, has_retain) = (g.us(1000), g.bool());
            let r = Box::into_raw(Box::new(Raw { data: data.clone(), refs: AtomicIsize::new(1), cap, has_retain }));
            w.raws.push(r);
            k.raw = Some(w.raws.len() - 1);
            let s: &'static [u8] = unsafe { std::slice::from_raw_parts((*r).data.as_ptr(), n) };
            let vt = if has_retain { &VT_SHARED } else { &VT_UNIQUE };
            (
                if has_retain { "from_raw_parts(shared)" } else { "from_raw_parts(unique)" },
                unsafe { Bytes::from_raw_parts(s, r as *const (), cap, vt) },
            )
        }
        _ => {
            let a = Arena::new(data.clone());
            let s = a.get();
            w.arenas.push(Some(a));
            k.dep = Some(w.arenas.len() - 1);
            if g.bool() {
                ("from_raw_parts(borrowed)", unsafe { Bytes::from_raw_parts(s, std::ptr::null(), 3, &VT_BORROWED) })
            } else {
                (
                    "from_raw_parts(borrowed,no retain)",
                    unsafe { Bytes::from_raw_parts(s, s.as_ptr().cast(), 3, &VT_BORROWED_NOCLONE) },
                )
            }
        }
    };
    finish(g, name, b, data, k, n)
}
#[cfg(feature = "stabby")]
fn construct_stabby(g: &mut Gen, w: &mut World, n: usize) -> H {
    use stabby::sync::ArcSlice;
    let data = g.fill(n);
    let mut k = NOMETA;
    // (stabby itself leaks the allocation of an empty BoxedSlice, and that of an empty ArcSlice turned
    // into a Vec: these are not generated)
    let vec = |g: &mut Gen, no_spare: bool| {
        let mut v = match g.below(3) {
            _ if no_spare && n == 0 => stabby::vec::Vec::new(),
            0 => stabby::vec::Vec::<u8>::from(&data[..]),
            1 => stabby::vec::Vec::<u8>::with_capacity(n + g.us(40)),
            _ => stabby::vec::Vec::<u8>::new(),
        };
        while v.len() < n {
            v.push(data[v.len()]);
        }
        v
    };
    let (name, b): (&'static str, Bytes<'static>) = match g.below(8) {
        0 => { k.lib_arc = Some(n); ("from(stabby Vec)", vec(g, false).into()) }
        1 => { k.lib_arc = Some(n); ("from(stabby BoxedSlice)", stabby::boxed::BoxedSlice::<u8>::from(vec(g, true)).into()) }
        2 if n > 0 => {
            k.lib_arc = Some(n);
            ("from(stabby BoxedSlice of slice)", stabby::boxed::BoxedSlice::<u8>::from(&data[..]).into())
        }
        3 | 4 => {
            let drops = Arc::new(AtomicUsize::new(0));
            let lo = g.us(5);
            let extra = g.us(5);
            let mut d = vec![7u8; lo];
            d.extend_from_slice(&data);
            d.extend(std::iter::repeat(9).take(extra));
            let a = stabby::sync::Arc::new(Blob { data: d, lo, hi: lo + n, drops: drops.clone() });
            let keep = g.bool().then(|| AnyBlob::Stabby(a.clone()));
            w.blobs.push((drops, keep));
            k.blob = Some(w.blobs.len() - 1);
            ("from(stabby Arc<T>)", a.into())
        }
        _ => {
            let a: ArcSlice<u8> = match g.below(3) {
                0 | 1 if n == 0 => {
                    // empty, with spare capacity
                    let mut v = stabby::vec::Vec::<u8>::with_capacity(1 + g.us(40));
                    v.push(1);
                    v.pop();
                    v.into()
                }
                0 => ArcSlice::from(&data[..]),
                1 => data.iter().copied().collect(),
                _ => vec(g, false).into(),
            };
            // half of the time nobody else holds it: the conversion back may be the only owner
            if g.bool() {
                w.arcs.push(AnyArc::Stabby(a.clone()));
                k.arc = Some(w.arcs.len() - 1);
                k.whole = true;
                ("from(stabby ArcSlice)", a.into())
            } else {
                k.fresh_arc = true;
                k.lib_arc = Some(n);
                ("from(stabby ArcSlice, unique)", a.into())
            }
        }
    };
    finish(g, name, b, data, k, n)
}
fn finish(g: &mut Gen, name: &'static str, b: Bytes<'static>, m: Vec<u8>, k: Meta, n: usize) -> H {
    g.label(name);
    LAST.with(|l| l.set((name, l.get().1)));
    let len = m.len();
    g.note(|| format!("new {name} len {} ({n})", len));
    H { b, m, k }
}

fn gen_bound(g: &mut Gen, len: usize) -> usize {
    match g.weighted(&[10, 3, 2, 1]) {
        0 => g.range(0, len),
        1 => *g.pick(&[0, len, len + 1, len.saturating_sub(1), MAX.min(len), (MAX + 1).min(len), len.saturating_sub(MAX), len.saturating_sub(MAX + 1)]),
        2 => g.range(0, len + 8),
        _ => *g.pick(&[usize::MAX, usize::MAX - 1, isize::MAX as usize, 1 << 40]),
    }
}

fn gen_range(g: &mut Gen, len: usize) -> (Bound<usize>, Bound<usize>) {
    let (a, b) = (gen_bound(g, len), gen_bound(g, len));
    // mostly ordered
    let (a, b) = if a > b && g.chance(4, 5) { (b, a) } else { (a, b) };
    let s = match g.weighted(&[5, 2, 2]) {
        0 => Bound::Included(a),
        1 => Bound::Unbounded,
        _ => Bound::Excluded(a),
    };
    let e = match g.weighted(&[5, 2, 2]) {
        0 => Bound::Excluded(b),
        1 => Bound::Unbounded,
        _ => Bound::Included(b),
    };
    (s, e)
}

/// What slicing `len` elements by this range means (None: a panic).
fn resolve(r: (Bound<usize>, Bound<usize>), len: usize) -> Option<(usize, usize)> {
    let s = match r.0 {
        Bound::Included(i) => i,
        Bound::Excluded(i) => i.checked_add(1)?,
        Bound::Unbounded => 0,
    };
    let e = match r.1 {
        Bound::Included(i) => i.checked_add(1)?,
        Bound::Excluded(i) => i,
        Bound::Unbounded => len,
    };
    (s <= e && e <= len).then_some((s, e))
}

fn shrink_by(b: &mut Bytes<'static>, r: (Bound<usize>, Bound<usize>)) {
    use Bound::*;
    // use the native range type where there is one
    match r {
        (Included(a), Excluded(e)) => b.shrink_to(a..e),
        (Included(a), Included(e)) => b.shrink_to(a..=e),
        (Included(a), Unbounded) => b.shrink_to(a..),
        (Unbounded, Excluded(e)) => b.shrink_to(..e),
        (Unbounded, Included(e)) => b.shrink_to(..=e),
        (Unbounded, Unbounded) => b.shrink_to(..),
        r => b.shrink_to(r),
    }
}

fn verify(w: &World, what: &str) {
    for (i, h) in w.hs.iter().enumerate() {
        if h.b.as_slice() != &h.m[..] {
            fail!(
                "content",
                "after {what}: handle {i} (meta {:?}) shows {:?} (len {}), expected {:?} (len {})",
                h.k,
                &h.b.as_slice()[..h.b.len().min(40)],
                h.b.len(),
                &h.m[..h.m.len().min(40)],
                h.m.len()
            );
        }
        if h.b.len() != h.m.len() {
            fail!("len", "after {what}: handle {i}: len() = {}, expected {}", h.b.len(), h.m.len());
        }
    }
    let e = RAW_ERR.load(SeqCst);
    if e != 0 {
        fail!(
            "vtable-protocol",
            "after {what}: {}",
            if e & 4 != 0 { "release called more than retain + 1 times" } else if e & 2 != 0 { "retain called after the last release" } else { "retain/release called with another capacity" }
        );
    }
    for (i, r) in w.raws.iter().enumerate() {
        let r = unsafe { &**r };
        let refs = r.refs.load(SeqCst);
        let must = w.hs.iter().filter(|h| h.k.raw == Some(i) && h.m.len() > MAX && (r.has_retain || h.k.whole)).count() as isize;
        let may = w.hs.iter().filter(|h| h.k.raw == Some(i)).count() as isize;
        // (a handle of more than MAX bytes cannot be inline, so it holds a reference, unless it is a copy)
        if r.has_retain && (refs < must || refs > may) {
            fail!("raw-refcount", "after {what}: raw backing {i} has {refs} references for {must}..={may} handles");
        }
        if refs < 0 || refs > may {
            fail!("raw-refcount", "after {what}: raw backing {i} has {refs} references for at most {may} handles");
        }
    }
    for (i, a) in w.arcs.iter().enumerate() {
        let n = a.strong() - 1;
        let may = w.hs.iter().filter(|h| h.k.arc == Some(i)).count();
        let must = w.hs.iter().filter(|h| h.k.arc == Some(i) && h.m.len() > MAX).count();
        if n < must || n > may {
            fail!("arc-refcount", "after {what}: Arc {i} has {n} extra strong references for {must}..={may} handles");
        }
    }
    for (i, (d, keep)) in w.blobs.iter().enumerate() {
        let d = d.load(SeqCst);
        if d > 1 || (keep.is_some() && d > 0) {
            fail!("blob-dropped", "after {what}: owner {i} dropped {d} times (kept alive: {})", keep.is_some());
        }
        if d == 0 && keep.is_none() && !w.hs.iter().any(|h| h.k.blob == Some(i)) {
            fail!("blob-leaked", "after {what}: owner {i} still alive without any handle");
        }
        if d == 1 && w.hs.iter().any(|h| h.k.blob == Some(i) && h.m.len() > MAX) {
            fail!("blob-dropped", "after {what}: owner {i} dropped while handles remain");
        }
        if let Some(a) = keep {
            let n = a.strong() - 1;
            let may = w.hs.iter().filter(|h| h.k.blob == Some(i)).count();
            let must = w.hs.iter().filter(|h| h.k.blob == Some(i) && h.m.len() > MAX).count();
            if n < must || n > may {
                fail!("blob-refcount", "after {what}: Arc<T> {i} has {n} extra strong references for {must}..={may} handles");
            }
        }
    }
}

fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
/// Records the exact sequence of calls a `Hash` impl makes.
#[derive(Default, PartialEq, Debug)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(&(b.len() as u32).to_le_bytes());
        self.0.extend_from_slice(b);
    }
}

fn sliced(k: &Meta) -> Meta {
    Meta { whole: false, fresh_arc: false, ..k.clone() }
}

fn machine(g: &mut Gen, focus: Focus) {
    RAW_ERR.store(0, SeqCst);
    let mut w = World { hs: vec![], arenas: vec![], arcs: vec![], blobs: vec![], raws: vec![] };
    let steps = g.range(1, 24);
    let ws: [u32; 14] = match focus {
        //               new drop clone shrink split upgr ncl  nupg read arc  cmp  scrib move dbg
        Focus::Content => [9, 4, 6, 12, 7, 3, 2, 2, 6, 1, 2, 2, 1, 1],
        Focus::Owner => [8, 8, 9, 7, 6, 3, 4, 3, 2, 5, 0, 2, 2, 0],
        Focus::Alloc => [9, 3, 10, 5, 2, 10, 9, 10, 1, 1, 0, 5, 0, 2],
        Focus::Downcast => [9, 3, 6, 5, 3, 5, 2, 2, 1, 14, 0, 1, 1, 0],
        Focus::Values => [10, 2, 3, 8, 3, 2, 1, 1, 3, 0, 12, 0, 0, 6],
        #[cfg(feature = "stabby")]
        Focus::Stabby => [10, 5, 8, 8, 6, 3, 3, 2, 3, 12, 1, 2, 1, 1],
    };
    let mut mutated = 0;
    for _ in 0..steps {
        let op = if w.hs.is_empty() { 0 } else { g.weighted(&ws) };
        let mut what = String::new();
        let i = if w.hs.is_empty() { 0 } else { g.us(w.hs.len()) };
        match op {
            0 => {
                if w.hs.len() < 10 {
                    let h = construct(g, &mut w);
                    if focus == Focus::Alloc {
                        fresh_promises(&h);
                    }
                    w.hs.push(h);
                    what = "construction".into();
                }
            }
            1 => {
                g.note(|| format!("drop #{i}"));
                let h = w.hs.swap_remove(i);
                drop(h);
                what = "drop".into();
            }
            2 => {
                let will = w.hs[i].b.clone_will_allocate();
                g.note(|| format!("clone #{i} (will allocate: {will})"));
                let n0 = allocs();
                let c = w.hs[i].b.clone();
                let did = allocs() - n0;
                g.label("clone");
                if focus == Focus::Alloc {
                    check!(
                        will == (did > 0),
                        "clone-alloc-prediction",
                        "clone_will_allocate() = {will} for {} bytes, but clone made {did} allocation(s)",
                        w.hs[i].m.len()
                    );
                }
                let mut k = w.hs[i].k.clone();
                if will {
                    g.label("clone-allocating");
                    k = Meta { dep: k.dep, fresh_arc: true, lib_arc: Some(w.hs[i].m.len()), ..NOMETA };
                }
                let m = w.hs[i].m.clone();
                w.hs.push(H { b: c, m, k });
                mutated += 1;
                what = "clone".into();
            }
            3 => {
                let len = w.hs[i].m.len();
                let r = gen_range(g, len);
                let want = resolve(r, len);
                let sub = g.bool();
                g.note(|| format!("shrink_to #{i} of len {len} by {r:?}"));
                let h = &mut w.hs[i];
                let inlined_before = len <= MAX;
                let got = if sub && want.is_some() {
                    let b = std::mem::take(&mut h.b);
                    match panics(move || {
                        use Bound::*;
                        match r {
                            (Included(a), Excluded(e)) => b.subsliced(a..e),
                            (Included(a), Unbounded) => b.subsliced(a..),
                            (Unbounded, Excluded(e)) => b.subsliced(..e),
                            r => b.subsliced(r),
                        }
                    }) {
                        Ok(b) => {
                            h.b = b;
                            Ok(())
                        }
                        Err(()) => Err(()),
                    }
                } else {
                    panics(|| shrink_by(&mut h.b, r))
                };
                match (want, got) {
                    (Some((s, e)), Ok(())) => {
                        h.m = h.m[s..e].to_vec();
                        h.k = sliced(&h.k);
                        if inlined_before && s > 0 {
                            g.label("shrink-of-short");
                        }
                        g.label("shrink");
                        mutated += 1;
                    }
                    (None, Err(())) => g.label("shrink-out-of-range"),
                    (Some(_), Err(())) => fail!("slice-panic", "shrink_to({r:?}) of {len} bytes panicked, the range is in bounds"),
                    (None, Ok(())) => fail!("slice-no-panic", "shrink_to({r:?}) of {len} bytes did not panic, the range is out of bounds"),
                }
                what = "shrink_to".into();
            }
            4 => {
                let h = w.hs.swap_remove(i);
                let at = gen_bound(g, h.m.len());
                let len = h.m.len();
                g.note(|| format!("split_at #{i} of len {len} at {at}"));
                let (k, m) = (h.k.clone(), h.m);
                let will = h.b.clone_will_allocate();
                match panics(move || h.b.split_at(at)) {
                    Err(()) => fail!("split-panic", "split_at({at}) of {len} bytes panicked"),
                    Ok(Ok((l, r))) => {
                        check!(at <= len, "split-accepts", "split_at({at}) of {len} bytes succeeded");
                        let mut k = sliced(&k);
                        if will && at > MAX && len - at > MAX {
                            // both halves are long: a common new buffer
                            k = Meta { dep: k.dep, lib_arc: Some(len), ..NOMETA };
                            g.label("split-reallocating");
                        }
                        w.hs.push(H { b: l, m: m[..at].to_vec(), k: k.clone() });
                        w.hs.push(H { b: r, m: m[at..].to_vec(), k });
                        g.label("split");
                        mutated += 1;
                    }
                    Ok(Err(b)) => {
                        check!(at > len, "split-rejects", "split_at({at}) of {len} bytes failed");
                        w.hs.push(H { b, m, k });
                        g.label("split-out-of-range");
                    }
                }
                what = "split_at".into();
            }
            5 => {
                let h = w.hs.swap_remove(i);
                let will = h.b.upgrade_will_allocate();
                g.note(|| format!("upgrade #{i} len {} (will allocate: {will})", h.m.len()));
                let n0 = allocs();
                let b = h.b.upgrade();
                let did = allocs() - n0;
                if focus == Focus::Alloc {
                    check!(
                        will == (did > 0),
                        "upgrade-alloc-prediction",
                        "upgrade_will_allocate() = {will} for {} bytes, but upgrade made {did} allocation(s)",
                        h.m.len()
                    );
                    check!(!b.upgrade_will_allocate(), "upgrade-not-idempotent", "an upgraded Bytes still needs an upgrade");
                }
                let k = if will { Meta { fresh_arc: true, lib_arc: Some(h.m.len()), ..NOMETA } } else { Meta { dep: None, ..h.k } };
                if will {
                    g.label("upgrade-allocating");
                }
                g.label("upgrade");
                w.hs.push(H { b, m: h.m, k });
                mutated += 1;
                what = "upgrade".into();
            }
            6 => {
                let will = w.hs[i].b.clone_will_allocate();
                let n0 = allocs();
                let c = w.hs[i].b.noalloc_clone();
                let did = allocs() - n0;
                g.note(|| format!("noalloc_clone #{i} -> {}", c.is_some()));
                if focus == Focus::Alloc {
                    check!(did == 0, "noalloc_clone-allocates", "noalloc_clone made {did} allocation(s)");
                    check!(
                        c.is_some() != will,
                        "noalloc_clone-disagrees",
                        "noalloc_clone of {} bytes is {}, clone_will_allocate() is {will}",
                        w.hs[i].m.len(),
                        if c.is_some() { "Some" } else { "None" }
                    );
                }
                g.label(if c.is_some() { "noalloc_clone-some" } else { "noalloc_clone-none" });
                if let Some(b) = c {
                    let (m, k) = (w.hs[i].m.clone(), w.hs[i].k.clone());
                    w.hs.push(H { b, m, k });
                }
                what = "noalloc_clone".into();
            }
            7 => {
                let h = w.hs.swap_remove(i);
                let will = h.b.upgrade_will_allocate();
                let n0 = allocs();
                let r = h.b.noalloc_upgrade();
                let did = allocs() - n0;
                g.note(|| format!("noalloc_upgrade #{i} len {} -> {}", h.m.len(), r.is_ok()));
                if focus == Focus::Alloc {
                    check!(did == 0, "noalloc_upgrade-allocates", "noalloc_upgrade made {did} allocation(s)");
                    check!(
                        r.is_err() == will,
                        "noalloc_upgrade-disagrees",
                        "noalloc_upgrade of {} bytes is {}, upgrade_will_allocate() was {will}",
                        h.m.len(),
                        if r.is_ok() { "Ok" } else { "Err" }
                    );
                }
                let (b, k) = match r {
                    Ok(b) => {
                        g.label("noalloc_upgrade-ok");
                        (b, Meta { dep: None, ..h.k })
                    }
                    Err(b) => {
                        g.label("noalloc_upgrade-err");
                        (b, h.k)
                    }
                };
                w.hs.push(H { b, m: h.m, k });
                what = "noalloc_upgrade".into();
            }
            8 => {
                let h = &mut w.hs[i];
                let len = h.m.len();
                match g.below(3) {
                    0 => {
                        let n = gen_bound(g, len).min(5000);
                        let mut buf = vec![0xEEu8; n];
                        let r = panics(|| h.b.read(&mut buf).unwrap());
                        g.note(|| format!("read({n}) #{i} of len {len} -> {r:?}"));
                        let want = n.min(len);
                        check!(r == Ok(want), "read", "read into {n} bytes from {len} bytes: {r:?}, expected {want}");
                        check!(buf[..want] == h.m[..want] && buf[want..].iter().all(|b| *b == 0xEE), "read-data", "read {want} of {len} bytes: wrong data");
                        h.m.drain(..want);
                    }
                    1 => {
                        let n = gen_bound(g, len).min(5000);
                        let mut buf = vec![0xEEu8; n];
                        let r = panics(|| h.b.read_exact(&mut buf).is_ok());
                        g.note(|| format!("read_exact({n}) #{i} of len {len} -> {r:?}"));
                        check!(r == Ok(n <= len), "read_exact", "read_exact of {n} bytes from {len} bytes: {r:?}");
                        if n <= len {
                            check!(buf[..] == h.m[..n], "read-data", "read_exact {n} of {len} bytes: wrong data");
                            h.m.drain(..n);
                        } else {
                            // contents unspecified by `Read` after a failed read_exact
                            h.m = h.b.as_slice().to_vec();
                        }
                    }
                    _ => {
                        let mut v = vec![];
                        let r = panics(|| h.b.read_to_end(&mut v).unwrap());
                        g.note(|| format!("read_to_end #{i} of len {len} -> {r:?}"));
                        check!(r == Ok(len), "read_to_end", "read_to_end of {len} bytes: {r:?}");
                        check!(v == h.m, "read-data", "read_to_end of {len} bytes: wrong data");
                        h.m.clear();
                    }
                }
                g.label("read");
                h.k = sliced(&h.k);
                mutated += 1;
                what = "read".into();
            }
            9 => {
                let h = w.hs.swap_remove(i);
                let (m, k) = (h.m, h.k);
                let to_stabby = cfg!(feature = "stabby") && g.chance(3, 4);
                let ty = if to_stabby { "ArcSlice<u8>" } else { "Arc<[u8]>" };
                g.note(|| format!("{ty}::try_from #{i} len {} meta {k:?}", m.len()));
                let before = k.arc.map(|a| w.arcs[a].strong());
                match AnyArc::try_from_bytes(h.b, to_stabby) {
                    Ok(a) => {
                        g.label(if to_stabby { "downcast-stabby-ok" } else { "downcast-ok" });
                        check!(a.get() == &m[..], "downcast-content", "the {ty} has {} bytes, the Bytes showed {}", a.get().len(), m.len());
                        if let Some(ai) = k.arc {
                            check!(
                                w.arcs[ai].stabby() == to_stabby && a.get().as_ptr() == w.arcs[ai].get().as_ptr(),
                                "downcast-identity",
                                "downcast to another Arc"
                            );
                            check!(
                                Some(a.strong()) == before,
                                "downcast-count",
                                "strong count {} after the downcast, {before:?} before",
                                a.strong()
                            );
                            let full = w.arcs[ai].get().len() == m.len();
                            check!(full, "downcast-shrunk", "a shrunk Bytes was downcast ({} of {} bytes)", m.len(), w.arcs[ai].get().len());
                        } else {
                            check!(
                                k.lib_arc.is_some() && to_stabby == LIB_STABBY,
                                "downcast-foreign",
                                "a Bytes not backed by an {ty} was downcast (meta {k:?})"
                            );
                            check!(
                                k.lib_arc == Some(m.len()),
                                "downcast-shrunk",
                                "a shrunk Bytes was downcast ({} of {:?} bytes)",
                                m.len(),
                                k.lib_arc
                            );
                        }
                        // and it is usable as an owner
                        match g.below(3) {
                            0 => drop(a),
                            #[cfg(feature = "stabby")]
                            1 if a.stabby() && !m.is_empty() => {
                                let AnyArc::Stabby(a) = a else { unreachable!() };
                                match stabby::vec::Vec::try_from(a) {
                                    Ok(mut v) => {
                                        check_eq!(&v[..], &m[..], "downcast-vec");
                                        for x in 0..50 {
                                            v.push(x);
                                        }
                                        check_eq!(&v[..m.len()], &m[..], "downcast-vec");
                                        g.label("downcast-to-vec");
                                    }
                                    Err(a) => drop(a),
                                }
                            }
                            _ => {
                                let fresh_arc = k.arc.is_none();
                                w.hs.push(H { b: a.into_bytes(), m, k: Meta { whole: true, fresh_arc, ..k } });
                            }
                        }
                    }
                    Err(b) => {
                        g.label(if to_stabby { "downcast-stabby-err" } else { "downcast-err" });
                        check!(
                            !(k.arc.map_or(false, |a| w.arcs[a].stabby() == to_stabby) && k.whole),
                            "downcast-refused",
                            "a never-sliced Bytes of {} bytes made from an {ty} was not downcast",
                            m.len()
                        );
                        check!(
                            !(k.fresh_arc && to_stabby == LIB_STABBY),
                            "downcast-refused-fresh",
                            "a Bytes whose clone/upgrade allocated was not downcast ({} bytes)",
                            m.len()
                        );
                        w.hs.push(H { b, m, k });
                    }
                }
                what = "Arc::try_from".into();
            }
            10 => {
                let j = g.us(w.hs.len());
                values(g, &w.hs[i], &w.hs[j]);
                what = "comparison".into();
            }
            11 => {
                // end of a borrowed lifetime: no handle typed with it may remain
                if let Some(a) = w.arenas.iter().position(|a| a.is_some()) {
                    let users = w.hs.iter().filter(|h| h.k.dep == Some(a)).count();
                    if users > 0 && g.bool() {
                        w.hs.retain(|h| h.k.dep != Some(a));
                    }
                    if !w.hs.iter().any(|h| h.k.dep == Some(a)) {
                        g.note(|| format!("the data borrowed from arena {a} is overwritten and freed"));
                        let x = w.arenas[a].take().unwrap();
                        x.scribble();
                        drop(x);
                        g.label("borrow-ends");
                        if !w.hs.is_empty() {
                            g.label("borrow-ends-with-handles");
                        }
                        what = "the end of a borrow".into();
                    }
                }
            }
            12 => {
                g.note(|| format!("send #{i} to another thread, clone and slice there"));
                let h = &w.hs[i];
                let (b, m) = (&h.b, &h.m);
                let ok = std::thread::scope(|s| {
                    s.spawn(move || {
                        let c = b.clone();
                        let h = m.len() / 2;
                        let ok = c.as_slice() == &m[..];
                        let d = c.clone();
                        drop(c);
                        ok && d[h..] == m[h..]
                    })
                    .join()
                    .unwrap_or(false)
                });
                check!(ok, "thread", "another thread saw other contents");
                g.label("thread");
                what = "use from a thread".into();
            }
            _ => {
                let h = &w.hs[i];
                check_eq!(format!("{:?}", h.b), format!("{:?}", &h.m[..]), "debug");
                let alt = format!("{:#?}", h.b);
                if focus != Focus::Alloc {
                    let data = format!("{:#?}", &h.m[..]).replace('\n', "\n    ");
                    check!(alt.contains(&data), "debug-alternate", "{alt} does not show {data}");
                    g.label("debug");
                    continue;
                }
                let want = {
                    struct D<'a>(&'a [u8], bool, bool);
                    impl std::fmt::Debug for D<'_> {
                        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                            f.debug_struct("Bytes").field("data", &self.0).field("owned", &self.1).field("shared", &self.2).finish()
                        }
                    }
                    let n0 = allocs();
                    let c = h.b.clone();
                    let shared = allocs() == n0;
                    drop(c);
                    // owned: upgrading a clone that shares its representation does not allocate
                    let owned = match h.b.noalloc_clone() {
                        Some(c) => {
                            let n0 = allocs();
                            drop(c.upgrade());
                            allocs() == n0
                        }
                        None => !h.b.upgrade_will_allocate(),
                    };
                    format!("{:#?}", D(&h.m, owned, shared))
                };
                check_eq!(alt, want, "debug-alternate");
                g.label("debug");
                what = "Debug".into();
            }
        }
        if w.hs.len() >= 2 && mutated >= 2 {
            g.nontrivial();
        }
        if !what.is_empty() {
            verify(&w, &what);
        }
        while w.hs.len() > 14 {
            w.hs.remove(0);
            verify(&w, "drop");
        }
    }
    // teardown, in a generated order
    g.note(|| "drop everything".into());
    while !w.hs.is_empty() {
        let i = g.us(w.hs.len());
        drop(w.hs.swap_remove(i));
        verify(&w, "drop");
    }
    for r in &w.raws {
        let refs = unsafe { (**r).refs.load(SeqCst) };
        check!(refs == 0, "raw-leak", "{refs} reference(s) to a raw backing left after the last handle was dropped");
    }
    for a in &w.arcs {
        check!(a.strong() == 1, "arc-leak", "{} strong reference(s) left", a.strong());
    }
    for (d, keep) in w.blobs.drain(..) {
        if let Some(k) = keep {
            check!(d.load(SeqCst) == 0 && k.strong() == 1, "blob-leak", "owner: {} references left", k.strong());
            drop(k);
        }
        check!(d.load(SeqCst) == 1, "blob-leak", "owner dropped {} times", d.load(SeqCst));
    }
    for r in w.raws.drain(..) {
        unsafe { drop(Box::from_raw(r)) }
    }
}

fn values(g: &mut Gen, x: &H, y: &H) {
    // make equal / prefix-related operands likely
    let alt: Vec<u8>;
    let other: &[u8] = match g.below(5) {
        0 => &y.m,
        1 => &x.m,
        2 => {
            alt = x.m[..x.m.len() / 2].to_vec();
            &alt
        }
        3 => {
            let mut a = x.m.clone();
            if let Some(l) = a.len().checked_sub(1) {
                let p = g.us(l + 1);
                a[p] ^= 1 << g.below(8);
            }
            alt = a;
            &alt
        }
        _ => {
            let mut a = x.m.clone();
            a.push(0);
            alt = a;
            &alt
        }
    };
    let (alias, piece): (Bytes<'static>, Vec<u8>);
    let mut ob: Bytes<'static> = match g.below(3) {
        0 => Bytes::copied_from_slice(other),
        1 => other.to_vec().into(),
        _ => Arc::<[u8]>::from(other).into(),
    };
    let mut other = other;
    // operands that share memory
    match g.below(4) {
        0 => {
            ob = y.b.clone();
            other = &y.m;
        }
        1 => {
            let n = x.m.len();
            let (i, j) = *g.pick(&[(0, n), (0, n / 2), (n / 2, n), (0, n.saturating_sub(1)), (n.min(1), n), (0, 0), (n, n)]);
            ob = x.b.clone().subsliced(i..j);
            piece = x.m[i..j].to_vec();
            other = &piece;
            g.label("cmp-shared");
        }
        _ => {}
    }
    check_eq!(&ob[..], other, "operand");
    check_eq!(x.b == &ob[..], x.m[..] == *other, "eq-slice-shared");
    alias = x.b.clone();
    check!(x.b == alias && alias == x.b && x.b == &alias[..] && x.b == x.b, "eq-self", "a handle differs from its clone, or from itself");
    g.note(|| format!("compare {} bytes with {} bytes", x.m.len(), other.len()));
    g.label(match x.m[..].cmp(other) {
        Ordering::Less => "cmp-less",
        Ordering::Equal => "cmp-equal",
        Ordering::Greater => "cmp-greater",
    });
    let want = x.m[..].cmp(other);
    check_eq!(x.b == ob, x.m[..] == *other, "eq");
    check_eq!(x.b != ob, x.m[..] != *other, "ne");
    check_eq!(x.b == other, x.m[..] == *other, "eq-slice");
    check_eq!(x.b == other.to_vec(), x.m[..] == *other, "eq-vec");
    check_eq!(ob == x.b, x.m[..] == *other, "eq-sym");
    check_eq!(Ord::cmp(&x.b, &ob), want, "cmp");
    check_eq!(Ord::cmp(&ob, &x.b), want.reverse(), "cmp-rev");
    check_eq!(x.b.partial_cmp(&ob), Some(want), "partial_cmp");
    check_eq!(x.b.partial_cmp(&other), Some(want), "partial_cmp-slice");
    check_eq!((x.b < ob, x.b <= ob, x.b > ob, x.b >= ob), (want.is_lt(), want.is_le(), want.is_gt(), want.is_ge()), "relational");
    check_eq!(hash_of(&x.b), hash_of(&x.m[..]), "hash");
    let (mut a, mut b) = (Rec::default(), Rec::default());
    x.b.hash(&mut a);
    x.m[..].hash(&mut b);
    check_eq!(a, b, "hash-calls");
    let s: &[u8] = x.b.borrow();
    check_eq!(s, &x.m[..], "borrow");
    check_eq!(x.b.as_ref(), &x.m[..], "as_ref");
    check_eq!(&*x.b, &x.m[..], "deref");
    check_eq!(x.b.is_empty(), x.m.is_empty(), "is_empty");
    // as keys
    let mut hm = HashMap::new();
    hm.insert(x.b.clone(), 1);
    hm.insert(ob.clone(), 2);
    check_eq!(hm.get(&x.m[..]), Some(if want.is_eq() { &2 } else { &1 }), "hashmap");
    check_eq!(hm.get(other), Some(&2), "hashmap-other");
    check_eq!(hm.len(), if want.is_eq() { 1 } else { 2 }, "hashmap-len");
    let mut bm = BTreeMap::new();
    bm.insert(x.b.clone(), 1);
    bm.insert(ob.clone(), 2);
    check_eq!(bm.get(&x.m[..]), Some(if want.is_eq() { &2 } else { &1 }), "btreemap");
    check_eq!(bm.len(), if want.is_eq() { 1 } else { 2 }, "btreemap-len");
    check_eq!(bm.keys().next().map(|k| k.as_slice()), Some(std::cmp::min(&x.m[..], other)), "btreemap-order");
    check_eq!(Bytes::default().as_slice(), &[] as &[u8], "default");
    check_eq!(Bytes::empty().len(), 0, "empty");
}

// ------------------------------------------------------------------ serde

mod de {
    use serde::de::{self, value::Error, DeserializeSeed, Deserializer, SeqAccess, Visitor};
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum Kind {
        Borrowed,
        Transient,
        Buf,
        Seq { hint: Option<usize>, bad_at: Option<usize> },
    }
    pub struct D<'de>(pub &'de [u8], pub Kind);
    struct Seq<'de>(&'de [u8], usize, Option<usize>, Option<usize>);
    impl<'de> SeqAccess<'de> for Seq<'de> {
        type Error = Error;
        fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
            use de::IntoDeserializer;
            if Some(self.1) == self.3 {
                return Err(de::Error::custom("broken input"));
            }
            match self.0.get(self.1) {
                None => Ok(None),
                Some(b) => {
                    self.1 += 1;
                    seed.deserialize((*b).into_deserializer()).map(Some)
                }
            }
        }
        fn size_hint(&self) -> Option<usize> {
            self.2
        }
    }
    impl<'de> Deserializer<'de> for D<'de> {
        type Error = Error;
        fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
            match self.1 {
                Kind::Borrowed => v.visit_borrowed_bytes(self.0),
                Kind::Transient => {
                    let mut t = self.0.to_vec();
                    let r = v.visit_bytes(&t);
                    t.iter_mut().for_each(|b| *b = !*b);
                    r
                }
                Kind::Buf => v.visit_byte_buf(self.0.to_vec()),
                Kind::Seq { hint, bad_at } => v.visit_seq(Seq(self.0, 0, hint, bad_at)),
            }
        }
        serde::forward_to_deserialize_any! {
            bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
            bytes byte_buf option unit unit_struct newtype_struct seq tuple
            tuple_struct map struct enum identifier ignored_any
        }
    }
}

fn serde_case(g: &mut Gen) {
    use serde::Deserialize;
    let n = size(g);
    let data = g.fill(n);
    let kind = match g.below(4) {
        0 => de::Kind::Borrowed,
        1 => de::Kind::Transient,
        2 => de::Kind::Buf,
        _ => de::Kind::Seq {
            hint: match g.below(6) {
                0 => None,
                1 => Some(n),
                2 => Some(0),
                3 => Some(g.us(2 * n + 2)),
                4 => Some(1 << g.range(20, 62)),
                _ => Some(usize::MAX),
            },
            bad_at: g.chance(1, 6).then(|| 0).map(|_: usize| 0).map(|_| n / 2),
        },
    };
    g.note(|| format!("deserialize {n} bytes as {kind:?}"));
    g.label(match kind {
        de::Kind::Borrowed => "borrowed",
        de::Kind::Transient => "transient",
        de::Kind::Buf => "buf",
        de::Kind::Seq { .. } => "seq",
    });
    if n > MAX {
        g.nontrivial();
    }
    let r = panics(|| Bytes::deserialize(de::D(&data, kind)));
    let bad = matches!(kind, de::Kind::Seq { bad_at: Some(_), .. });
    match r {
        Err(()) => fail!("deserialize-panic", "deserializing {n} bytes from {kind:?} panicked"),
        Ok(Err(e)) => check!(bad, "deserialize-error", "deserializing {n} bytes from {kind:?}: {e}"),
        Ok(Ok(b)) => {
            check!(!bad, "deserialize-ok", "an error of the sequence was swallowed");
            check_eq!(b.as_slice(), &data[..], "deserialize-content");
            // and serializes to the same bytes
            let toks = exempt(|| {
                let s: &'static [u8] = Box::leak(data.clone().into_boxed_slice());
                s
            });
            let r = panics(|| serde_test::assert_ser_tokens(&b, &[serde_test::Token::Bytes(toks)]));
            exempt(|| unsafe { drop(Box::from_raw(toks as *const [u8] as *mut [u8])) });
            check!(r.is_ok(), "serialize", "serialization of {n} bytes is not the bytes");
            if kind != de::Kind::Borrowed {
                let u = b.upgrade();
                drop(data.clone());
                check_eq!(u.as_slice(), &data[..], "deserialize-upgrade");
            }
        }
    }
}

// ------------------------------------------------------------------ concurrency

/// Several threads clone/slice/drop handles of shared backings; the backing is released exactly
/// once, by whoever drops the last handle, and never while someone can still read it.
fn threads(g: &mut Gen) {
    RAW_ERR.store(0, SeqCst);
    let n = size(g).max(MAX + 1);
    let data = g.fill(n);
    let drops = Arc::new(AtomicUsize::new(0));
    let kind = g.below(if cfg!(feature = "stabby") { 6 } else { 3 });
    let arc: Option<Arc<[u8]>> = (kind == 1).then(|| data.clone().into());
    #[cfg(feature = "stabby")]
    let sarc = (kind == 3 || kind == 4).then(|| stabby::sync::ArcSlice::<u8>::from(&data[..]));
    let raw = (kind == 2).then(|| {
        Box::into_raw(Box::new(Raw { data: data.clone(), refs: AtomicIsize::new(1), cap: 5, has_retain: true }))
    });
    let b: Bytes<'static> = match kind {
        0 => Arc::new(Blob { data: data.clone(), lo: 0, hi: n, drops: drops.clone() }).into(),
        1 => arc.clone().unwrap().into(),
        #[cfg(feature = "stabby")]
        3 | 4 => sarc.clone().unwrap().into(),
        #[cfg(feature = "stabby")]
        5 => stabby::sync::Arc::new(Blob { data: data.clone(), lo: 0, hi: n, drops: drops.clone() }).into(),
        _ => unsafe {
            let r = raw.unwrap();
            let s: &'static [u8] = std::slice::from_raw_parts((*r).data.as_ptr(), n);
            Bytes::from_raw_parts(s, r as *const (), 5, &VT_SHARED)
        },
    };
    let nt = g.range(2, 4);
    let scripts: Vec<Vec<u64>> = (0..nt)
        .map(|_| {
            let k = g.range(1, 30);
            (0..k).map(|_| g.below(1 << 20)).collect()
        })
        .collect();
    g.note(|| format!("{nt} threads over kind {kind}, {n} bytes, {:?} ops", scripts.iter().map(|s| s.len()).collect::<Vec<_>>()));
    g.nontrivial();
    let barrier = std::sync::Barrier::new(nt);
    let ok = std::thread::scope(|s| {
        let hs: Vec<_> = scripts
            .iter()
            .map(|sc| {
                let mine = b.clone();
                let (barrier, data) = (&barrier, &data);
                s.spawn(move || {
                    let mut v: Vec<(Bytes<'static>, usize, usize)> = vec![(mine, 0, n)];
                    barrier.wait();
                    for x in sc {
                        if v.is_empty() {
                            break;
                        }
                        let i = (*x as usize / 8) % v.len();
                        match x % 8 {
                            0 | 1 | 2 => {
                                let c = (v[i].0.clone(), v[i].1, v[i].2);
                                v.push(c)
                            }
                            3 | 4 => {
                                drop(v.swap_remove(i));
                            }
                            5 => {
                                let (b, s, e) = v.swap_remove(i);
                                let m = (e - s) / 2;
                                if let Ok((l, r)) = b.split_at(m) {
                                    v.push((l, s, s + m));
                                    v.push((r, s + m, e));
                                }
                            }
                            6 => {
                                let (b, s, e) = v.swap_remove(i);
                                v.push((b.upgrade(), s, e));
                            }
                            _ => {
                                let (b, s, e) = &v[i];
                                if b.as_slice() != &data[*s..*e] {
                                    return false;
                                }
                            }
                        }
                    }
                    v.iter().all(|(b, s, e)| b.as_slice() == &data[*s..*e])
                })
            })
            .collect();
        drop(b);
        hs.into_iter().all(|h| h.join().unwrap_or(false))
    });
    check!(ok, "thread-content", "a thread saw wrong contents");
    check!(RAW_ERR.load(SeqCst) == 0, "vtable-protocol", "retain/release protocol broken ({})", RAW_ERR.load(SeqCst));
    match kind {
        0 | 5 => check_eq!(drops.load(SeqCst), 1, "thread-drops"),
        #[cfg(feature = "stabby")]
        3 | 4 => check_eq!(stabby::sync::ArcSlice::strong_count(sarc.as_ref().unwrap()), 1, "thread-arc"),
        1 => check_eq!(Arc::strong_count(arc.as_ref().unwrap()), 1, "thread-arc"),
        _ => unsafe {
            let r = Box::from_raw(raw.unwrap());
            check_eq!(r.refs.load(SeqCst), 0, "thread-raw");
        },
    }
}

pub fn props() -> Vec<Prop> {
    fn content(g: &mut Gen) {
        machine(g, Focus::Content)
    }
    fn owner(g: &mut Gen) {
        machine(g, Focus::Owner)
    }
    fn alloc_(g: &mut Gen) {
        machine(g, Focus::Alloc)
    }
    fn downcast(g: &mut Gen) {
        machine(g, Focus::Downcast)
    }
    fn values_(g: &mut Gen) {
        machine(g, Focus::Values)
    }
    #[cfg(feature = "stabby")]
    fn stabby_(g: &mut Gen) {
        machine(g, Focus::Stabby)
    }
    let rule = "a history counts when it made at least 2 state-changing operations (clone, shrink, split, upgrade, read) and had at least 2 live handles at some point; distinct = distinct choice sequences";
    vec![
        Prop { id: "B01", rule, subs: vec![Sub { name: "history", f: content, quick: 400_000, thorough: 6_000_000, leaks: false }] },
        Prop {
            id: "B02",
            rule: "history: as B01 (>= 2 state-changing operations and >= 2 live handles); threads: every case (2-4 threads sharing one backing of more than MAX_INLINE_SIZE bytes)",
            subs: vec![
                Sub { name: "history", f: owner, quick: 300_000, thorough: 5_000_000, leaks: true },
                Sub { name: "threads", f: threads, quick: 20_000, thorough: 300_000, leaks: true },
            ],
        },
        #[cfg(feature = "stabby")]
        Prop {
            id: "B06",
            rule: "history: as B01 (>= 2 state-changing operations and >= 2 live handles), half of the handles made from stabby containers; threads: every case",
            subs: vec![
                Sub { name: "history", f: stabby_, quick: 400_000, thorough: 6_000_000, leaks: true },
                Sub { name: "threads", f: threads, quick: 10_000, thorough: 200_000, leaks: true },
            ],
        },
        Prop { id: "B03", rule, subs: vec![Sub { name: "history", f: alloc_, quick: 400_000, thorough: 6_000_000, leaks: false }] },
        Prop { id: "B04", rule, subs: vec![Sub { name: "history", f: downcast, quick: 400_000, thorough: 6_000_000, leaks: true }] },
        Prop {
            id: "B05",
            rule: "history: as B01; serde: the byte string is longer than MAX_INLINE_SIZE",
            subs: vec![
                Sub { name: "history", f: values_, quick: 250_000, thorough: 4_000_000, leaks: false },
                Sub { name: "serde", f: serde_case, quick: 100_000, thorough: 1_000_000, leaks: true },
            ],
        },
    ]
}
