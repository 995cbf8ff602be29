"""R02: what Rust's rules on threads, lifetimes, ownership and unsafety refuse for the standard types is refused for the library's, and what they accept is accepted."""
import random, re
import rules

HEAD = """
use ::core::marker::PhantomData; use ::core::cell::Cell; use ::std::sync::{Arc, MutexGuard}; use ::std::rc::Rc;
use ::safer_ffi::{bytes::Bytes, option::TaggedOption, tuple::{Tuple2, Tuple3}, closure::*, ptr};
#[derive_ReprC] #[repr(C)] #[derive(Clone)] pub struct SS { pub a: u8, pub p: PhantomData<u8> }
#[derive_ReprC] #[repr(C)] #[derive(Clone)] pub struct SN { pub a: u8, pub p: PhantomData<Cell<u8>> }
#[derive_ReprC] #[repr(C)] pub struct NS { pub a: u8, pub p: PhantomData<MutexGuard<'static, ()>> }
#[derive_ReprC] #[repr(C)] pub struct NN { pub a: u8, pub p: PhantomData<Rc<()>> }
#[derive_ReprC] #[repr(C)] #[derive(Clone)] pub struct G<T> { pub a: T, pub b: u8 }
#[derive_ReprC] #[repr(transparent)] #[derive(Clone)] pub struct W<T>(pub T);
#[derive_ReprC] #[repr(opaque)] #[derive(Clone)] pub struct OG<T> { pub a: T }
impl AsRef<[u8]> for SS { fn as_ref(&self) -> &[u8] { &[] } }
impl AsRef<[u8]> for SN { fn as_ref(&self) -> &[u8] { &[] } }
impl AsRef<[u8]> for NS { fn as_ref(&self) -> &[u8] { &[] } }
impl AsRef<[u8]> for NN { fn as_ref(&self) -> &[u8] { &[] } }
pub const fn ss() -> SS { SS { a: 1, p: PhantomData } }
pub const fn sn() -> SN { SN { a: 1, p: PhantomData } }
pub const fn ns() -> NS { NS { a: 1, p: PhantomData } }
pub const fn nn() -> NN { NN { a: 1, p: PhantomData } }
pub struct Bo<'a>(pub &'a [u8]); impl AsRef<[u8]> for Bo<'_> { fn as_ref(&self) -> &[u8] { self.0 } }
#[derive_ReprC(dyn)] pub trait Tr { fn m(&self); }
#[derive_ReprC(dyn)] pub trait Tm { fn m(&mut self); }
#[derive_ReprC(dyn, Clone)] pub trait Tc { fn m(&self); }
impl Tr for SS { fn m(&self) {} } impl Tr for SN { fn m(&self) {} } impl Tr for NS { fn m(&self) {} } impl Tr for NN { fn m(&self) {} } impl Tr for Bo<'_> { fn m(&self) {} }
impl Tm for SS { fn m(&mut self) {} } impl Tm for SN { fn m(&mut self) {} } impl Tm for NS { fn m(&mut self) {} } impl Tm for NN { fn m(&mut self) {} } impl Tm for Bo<'_> { fn m(&mut self) {} }
impl Tc for SS { fn m(&self) {} } impl Tc for SN { fn m(&self) {} } impl Tc for NS { fn m(&self) {} } impl Tc for NN { fn m(&self) {} }
pub struct IsSend<T: ?Sized>(PhantomData<T>); pub struct IsSync<T: ?Sized>(PhantomData<T>); pub struct IsCopy<T: ?Sized>(PhantomData<T>); pub struct IsClone<T: ?Sized>(PhantomData<T>);
pub trait No { const IS: bool = false; } impl<T: ?Sized> No for T {}
impl<T: ?Sized + Send> IsSend<T> { pub const IS: bool = true; } impl<T: ?Sized + Sync> IsSync<T> { pub const IS: bool = true; }
impl<T: ?Sized + Copy> IsCopy<T> { pub const IS: bool = true; } impl<T: ?Sized + Clone> IsClone<T> { pub const IS: bool = true; }
pub fn rbox<T>(x: ::std::boxed::Box<T>) -> repr_c::Box<T> { x.into() } pub fn rbox0<T>(x: T) -> repr_c::Box<T> { ::std::boxed::Box::new(x).into() }
pub fn stat<T: 'static>(_: &T) {} pub fn peek<T: ?Sized>(_: &T) {} pub fn poke<T: ?Sized>(_: &mut T) {} pub fn send<T: Send + 'static>(_: T) {}
"""

# -- Send, Sync, Copy and Clone: as for the standard type of the same ownership ------------------------------------

LEAF = [("SS", "SS"), ("SN", "SN"), ("NS", "NS"), ("NN", "NN"), ("SS", "SS"), ("u8", "u8"), ("str::Ref<'static>", "&'static str"), ("str::Box", "::std::boxed::Box<str>"),
        ("repr_c::String", "String"), ("char_p::Ref<'static>", "&'static str"), ("char_p::Box", "String"), ("VirtualPtr<dyn Tm>", "::std::boxed::Box<dyn Tm>"),
        ("VirtualPtr<dyn Tr + Send + Sync>", "::std::boxed::Box<dyn Tr + Send + Sync>"), ("VirtualPtr<dyn Tm + Send>", "::std::boxed::Box<dyn Tm + Send>"),
        ("VirtualPtr<dyn Tc>", "Rc<dyn Tr>"), ("VirtualPtr<dyn Tc + Send + Sync>", "Arc<dyn Tr + Send + Sync>"), ("VirtualPtr<dyn Tr>", "::std::boxed::Box<dyn Tr>"),
        ("Bytes<'static>", "Arc<[u8]>")]
WRAP = [("repr_c::Box<@>", "::std::boxed::Box<@>"), ("repr_c::Vec<@>", "Vec<@>"), ("c_slice::Box<@>", "::std::boxed::Box<[@]>"), ("c_slice::Ref<'static, @>", "&'static [@]"),
        ("c_slice::Mut<'static, @>", "&'static mut [@]"), ("TaggedOption<@>", "Option<@>"), ("Tuple2<u8, @>", "(u8, @)"),
        ("Tuple3<@, bool, u8>", "(@, bool, u8)"), ("Out<'static, @>", "&'static mut @"), ("[@; 3]", "[@; 3]"), ("&'static @", "&'static @"), ("&'static mut @", "&'static mut @"),
        ("G<@>", "G<@>"), ("W<@>", "W<@>"), ("&'static OG<@>", "&'static OG<@>"), ("repr_c::Box<OG<@>>", "::std::boxed::Box<OG<@>>"), ("Option<&'static @>", "Option<&'static @>")]
RAWS = [("c_slice::Raw<@>", "*mut @"), ("ptr::NonNull<@>", "*mut @"), ("ptr::NonNullRef<@>", "*mut @"), ("ptr::NonNullMut<@>", "*mut @"), ("ptr::NonNullOwned<@>", "*mut @")]
CLOS = [("repr_c::Box<dyn Send + FnMut(#) -> @>", "::std::boxed::Box<dyn Send + FnMut(#) -> @>"), ("repr_c::Arc<dyn Send + Sync + Fn(#) -> @>", "Arc<dyn Send + Sync + Fn(#) -> @>")]
NOCOPY = {"Tuple2<u8, @>", "Tuple3<@, bool, u8>", "TaggedOption<@>"}


def auto_gen(r, d):
    """-> the library's type, its standard twin, whether Copy and Clone are compared too, structure"""
    x = r.random()
    if d == 0 or x < 0.1:
        a, b = r.choice(LEAF)
        return a, b, a not in ("str::Box", "char_p::Box"), (a,)
    if x < 0.2:
        n = r.choice([0, 1, 2, 3, 5, 9])
        k = r.randrange(3)
        args = [auto_gen(r, min(1, d - 1)) for _ in range(n)]
        ret = auto_gen(r, min(1, d - 1))
        if k == 2:
            a = f"RefDynFnMut{n}<'static, {', '.join([ret[0]] + [x[0] for x in args])}>"
            b = f"&'static mut (dyn Send + FnMut({', '.join(x[1] for x in args)}) -> {ret[1]})"
        else:
            a, b = (s.replace("#", ", ".join(x[k2] for x in args)).replace("@", ret[k2]) for k2, s in enumerate(CLOS[k]))
        return a, b, True, ("closure", k, n)
    if x < 0.28:
        a, b = r.choice(RAWS)
        t = auto_gen(r, d - 1)
        return a.replace("@", t[0]), b.replace("@", t[1]), False, (a, t[3])
    a, b = r.choice(WRAP)
    t = auto_gen(r, d - 1)
    return a.replace("@", t[0]), b.replace("@", t[1]), t[2] and a not in NOCOPY, (a, t[3])


def auto_item(r, n):
    a, b, full, key = auto_gen(r, r.choice([0, 1, 1, 2, 2, 3]))
    tr = r.choice(["IsSend", "IsSync"] * 2 + (["IsCopy", "IsClone"] if full else []))
    return dict(src=f"const _: () = assert!({tr}::<{a}>::IS == {tr}::<{b}>::IS);", ok=True, phase="ok", group="automatic traits", key=str((tr, key)),
                why=f"`{a}` has to be {tr[2:]} exactly if `{b}` is")


# -- variance ------------------------------------------------------------------------------------------------------

CO, CONTRA, INV = 1, -1, 0
VAR = [("repr_c::Box<@>", CO), ("repr_c::Vec<@>", CO), ("c_slice::Box<@>", CO), ("c_slice::Ref<'x, @>", CO), ("&'x @", CO), ("c_slice::Mut<'x, @>", INV), ("Out<'x, @>", INV),
       ("&'x mut @", INV), ("TaggedOption<@>", CO), ("G<@>", CO), ("W<@>", CO), ("[@; 2]", CO), ("Tuple2<u8, @>", CO), ("ptr::NonNullMut<@>", INV), ("Option<&'x @>", CO),
       ("repr_c::Box<dyn Send + FnMut(@)>", CONTRA), ("repr_c::Box<dyn Send + FnMut() -> @>", CO), ("repr_c::Arc<dyn Send + Sync + Fn(u8, @)>", CONTRA),
       ("repr_c::Arc<dyn Send + Sync + Fn(bool) -> @>", CO), ("RefDynFnMut1<'x, (), @>", CONTRA), ("RefDynFnMut0<'x, @>", CO), ('extern "C" fn(@)', CONTRA), ('extern "C" fn() -> @', CO)]
VLEAF = [("&'a u8", CO), ("c_slice::Ref<'a, u8>", CO), ("c_slice::Mut<'a, SS>", CO), ("str::Ref<'a>", CO), ("char_p::Ref<'a>", CO), ("&'a mut u16", CO), ("Out<'a, u8>", CO),
         ("Bytes<'a>", CO), ("RefDynFnMut1<'a, u8, u16>", CO), ("Cell<&'a u8>", INV)]
# What a closure refers to must have a C representation.
NOTREPR = ("Cell", )


def variance_item(r, n):
    t, v = r.choice(VLEAF)
    key = [t]
    for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
        w, k = r.choice(VAR)
        if ("Fn" in w or "fn" in w) and any(x in t for x in NOTREPR):
            continue
        key.append(w)
        t, v = w.replace("@", t), v * k
    grow = r.random() < 0.5
    src, dst = (t.replace("'a", "'s"), t.replace("'a", "'l")) if grow else (t.replace("'a", "'l"), t.replace("'a", "'s"))
    ok = (v == CONTRA) if grow else (v == CO)
    # 'l outlives 's; both outlive what they are used under
    lts = "'l: 'x + 's, 's: 'x, 'x"
    return dict(src=f"pub fn f<{lts}>(x: {src}) -> {dst} {{ x }}", ok=ok, phase="borrow", group="variance", key=str((grow, key)),
                why=f"`{t}` is {'invariant' if v == INV else 'covariant' if v == CO else 'contravariant'} in 'a")


# -- what may be captured or converted ------------------------------------------------------------------------------

FLAV = {"ss": (True, True), "sn": (True, False), "ns": (False, True), "nn": (False, False)}
ARGT = ["u8", "u32", "bool", "f64", "SS", "repr_c::String", "repr_c::Vec<u8>", "char_p::Box", "NN"]


def closure_item(r, n):
    k = r.choice(["Box", "Arc", "Ref"])
    fl = r.choice(list(FLAV))
    snd, syn = FLAV[fl]
    owned = r.random() < 0.5
    how = r.choice(["into", "new"])
    na = r.choice([0, 0, 1, 2, 4, 9])
    args = [r.choice(ARGT) for _ in range(na)]
    ret = r.choice(["()", "u8", "repr_c::String"])
    flaw = r.choice([None, None, None, "FnMut", "FnOnce", "arity", "argument", "result"])
    if flaw == "argument" and not na:
        flaw = None
    body = {"()": "", "u8": "3u8", "repr_c::String": 'repr_c::String::from("x")'}[ret]
    cargs = list(args)
    if flaw == "arity":
        cargs = cargs[:-1] if na and r.random() < 0.5 else cargs + ["u8"]
    if flaw == "argument":
        j = r.randrange(na)
        cargs[j] = r.choice([x for x in ARGT if x != args[j]])
    cret = ret if flaw != "result" else r.choice([x for x in ["()", "u8", "repr_c::String"] if x != ret])
    cbody = {"()": "", "u8": "3u8", "repr_c::String": 'repr_c::String::from("x")'}[cret]
    # the capture: a value, or a reference to a local (a shared reference is Send where the value is Sync)
    use = {None: "let _c = &c;", "FnMut": "let c = &mut c; poke(c);", "FnOnce": "let d = c; drop(d);"}.get(flaw, "let _c = &c;")
    if owned:
        pre, cs, cy = f"let mut c = {fl}();", snd, syn
    else:
        pre, cs, cy = f"let x = {fl}(); let mut c = &x;", syn, syn
        if flaw == "FnOnce":  # references are Copy
            flaw = None
            use = "let _c = &c;"
    clo = f"move |{', '.join(f'_{j}: {a}' for j, a in enumerate(cargs))}| -> {cret} {{ {use} {cbody} }}"
    sig = f"({', '.join(args)}) -> {ret}"
    ty = {"Box": f"repr_c::Box<dyn Send + FnMut{sig}>", "Arc": f"repr_c::Arc<dyn Send + Sync + Fn{sig}>", "Ref": f"RefDynFnMut{na}<'_, {', '.join([ret] + args)}>"}[k]
    if k == "Ref":
        val = "(&mut g)" if how == "into" else f"RefDynFnMut{na}::new(&mut g)"
        pre += f" let mut g = {clo};"
    else:
        box = f"::std::boxed::Box::new({clo})" if k == "Box" else f"Arc::new({clo})"
        val = box if how == "into" else (f"BoxDynFnMut{na}::new({box})" if k == "Box" else f"ArcDynFn{na}::new({box})")
    why = []
    if k in ("Box", "Arc") and not owned:
        why.append("the closure borrows a local")
    if not cs:
        why.append("the closure is not Send")
    if k == "Arc" and not cy:
        why.append("the closure is not Sync")
    if flaw == "FnOnce" or (flaw == "FnMut" and k == "Arc"):
        why.append(f"the closure is only {flaw}")
    if flaw in ("arity", "argument", "result"):
        why.append(f"the closure's {flaw} is another")
    return dict(src=f"pub fn f() {{ {pre} let p: {ty} = {val}{'.into()' if how == 'into' else ''}; let _ = &p; }}", ok=not why, phase="borrow" if why == ["the closure borrows a local"] else "type",
                group="closures", key=str((k, fl, owned, how, flaw, na)), why=" and ".join(why) or "the closure is as the type demands")


def vptr_item(r, n):
    tr = r.choice(["Tr", "Tm", "Tc"])
    bounds = r.choice(["", "", " + Send + Sync"] + ([" + Send"] if tr == "Tm" else []))
    p = r.choice(["Box", "Rc", "Arc", "&", "&mut"])
    fl = r.choice(list(FLAV))
    borrowed = tr != "Tc" and r.random() < 0.2
    val = "Bo(&o[..])" if borrowed else f"{fl}()"
    snd, syn = (True, True) if borrowed else FLAV[fl]
    lt = r.choice(["", " + '_", " + 'static"])
    why = []
    if "Send" in bounds and not snd:
        why.append("the value is not Send")
    if "Sync" in bounds and not syn:
        why.append("the value is not Sync")
    if tr == "Tc" and fl in ("ns", "nn") and p == "Box":
        why.append("the value cannot be cloned")
    if p in ("Rc", "Arc", "&") and tr == "Tm":
        why.append("shared pointers give no `&mut`")
    if p == "Rc" and bounds:
        why.append("`Rc` is not Send")
    if p == "Arc" and not bounds:
        return None  # one could do without
    if p == "&mut" and tr == "Tc":
        why.append("an exclusive reference cannot be cloned")
    e = {"Box": f"::std::boxed::Box::new({val})", "Rc": f"Rc::new({val})", "Arc": f"Arc::new({val})", "&": "(&v)", "&mut": "(&mut v)"}[p]
    pre = f"let mut v = {val}; " if p[0] == "&" else ""
    late = []
    if lt == " + 'static" and (borrowed or p[0] == "&"):  # without a lifetime, it is inferred
        late.append("a local is borrowed for 'static")
    return dict(src=f"pub fn f() {{ let o = vec![1u8]; {pre}let p: VirtualPtr<dyn {tr}{bounds}{lt}> = {e}.into(); let _ = &p; }}", ok=not (why or late), phase="type" if why else "borrow",
                group="virtual pointers", key=str((tr, bounds, p, fl if not borrowed else "borrowed", lt)), why=" and ".join(why + late) or "the pointer is as the trait object demands")


def convert_item(r, n):
    fl = r.choice(list(FLAV))
    snd, syn = FLAV[fl]
    borrowed = r.random() < 0.3
    val = "Bo(&o[..])" if borrowed else f"{fl}()"
    both = borrowed or (snd and syn)
    why = ([] if both else ["the value is not Send and Sync"]) + (["a local is borrowed for 'static"] if borrowed else [])
    e = r.choice(["let p = Bytes::from(Arc::new(@));", "let p: Bytes<'static> = Arc::new(@).into();", "let p = ::safer_ffi::dyn_traits::dyn_drop::DynDrop::new(@);"])
    return dict(src=f"pub fn f() {{ let o = vec![1u8]; {e.replace('@', val)} let _ = &p; }}", ok=not why, phase="borrow" if borrowed else "type", group="conversions",
                key=str((e, fl, borrowed)), why=" and ".join(why) or "the value may be shared between threads and outlives everything")


# -- chains of views -------------------------------------------------------------------------------------------------
# kind of a step: pass (the view's lifetime is kept), shr / mut (borrows the previous variable), own (borrows nothing)
T, U = "T", "u8"
STEPS = {
    "vec": [("sl", "&x[..]", "shr"), ("slm", "&mut x[..]", "mut"), ("rvec", "repr_c::Vec::from(x)", "pass"), ("cbox", "c_slice::Box::from(x.into_boxed_slice())", "pass"),
            ("cref", "c_slice::Ref::from(&x[..])", "shr"), ("cmut", "c_slice::Mut::from(&mut x[..])", "mut")],
    "sl": [("cref", "c_slice::Ref::from(x)", "pass"), ("bytes", "Bytes::from_slice(x)", "pass", U), ("bytes", "Bytes::copied_from_slice(x)", "own", U), ("vec", "x.to_vec()", "own"),
           ("bo", "Bo(x)", "pass", U)],
    "slm": [("cmut", "c_slice::Mut::from(x)", "pass"), ("sl", "&*x", "shr"), ("sl", "&x[..]", "shr")],
    "cref": [("sl", "x.as_slice()", "pass"), ("sl", "&x[..]", "shr"), ("cref", "x.clone()", "pass"), ("cref", "c_slice::Ref::from(&x[..])", "shr")],
    "cmut": [("cref", "x.as_ref()", "shr"), ("cmut", "x.as_mut()", "mut"), ("slm", "x.as_slice()", "pass"), ("cref", "c_slice::Ref::from(x)", "pass"), ("sl", "&x[..]", "shr"),
             ("slm", "&mut x[..]", "mut")],
    "rvec": [("cref", "x.as_ref()", "shr"), ("cmut", "x.as_mut()", "mut"), ("sl", "&x[..]", "shr"), ("slm", "&mut x[..]", "mut"), ("vec", "Vec::from(x)", "pass"), ("rvec", "x.clone()", "own")],
    "cbox": [("cref", "x.as_ref()", "shr"), ("cmut", "x.as_mut()", "mut"), ("sl", "x.as_slice()", "shr"), ("slm", "x.as_slice_mut()", "mut"), ("sl", "&x[..]", "shr"),
             ("slm", "&mut x[..]", "mut"), ("vec", "::std::boxed::Box::<[_]>::from(x).into_vec()", "pass"), ("cbox", "x.clone()", "own")],
    "string": [("st", "&x[..]", "shr"), ("rstr", "repr_c::String::from(x)", "pass"), ("sbox", "str::Box::from(x)", "pass"), ("cpb", "char_p::Box::try_from(x).unwrap()", "pass")],
    "st": [("sref", "str::Ref::from(x)", "pass"), ("cpr", "char_p::Ref::try_from(x).unwrap()", "pass"), ("sl", "x.as_bytes()", "pass", "becomes u8"), ("sbox", "str::Box::from(x)", "own"),
           ("rstr", "repr_c::String::from(x)", "own"), ("cpb", "char_p::new(x)", "own")],
    "sref": [("st", "x.as_str()", "pass"), ("st", "&x[..]", "shr"), ("string", "String::from(x)", "own"), ("sref", "x.clone()", "pass")],
    "cpr": [("st", "x.to_str()", "pass"), ("sl", "x.to_bytes()", "pass", "becomes u8"), ("sl", "x.to_bytes_with_null()", "pass", "becomes u8"), ("cpb", "x.to_owned()", "own")],
    "cpb": [("cpr", "x.as_ref()", "shr"), ("st", "x.to_str()", "shr"), ("sl", "x.to_bytes()", "shr", "becomes u8"), ("st", "x.to_str_with_null()", "shr")],
    "sbox": [("sref", "x.as_ref()", "shr"), ("st", "&x[..]", "shr"), ("string", "String::from(x)", "pass"), ("rstr", "repr_c::String::from(&x[..])", "own")],
    "rstr": [("st", "&x[..]", "shr"), ("string", "String::from(x)", "pass"), ("rstr", "x.clone()", "own")],
    "bytes": [("sl", "x.as_slice()", "shr"), ("sl", "&x[..]", "shr"), ("bytes", "x.clone()", "pass copy"), ("bytes", "x.subsliced(..0)", "pass"), ("bytes", "x.upgrade()", "own moved"),
              ("bytes", "x.noalloc_clone().unwrap()", "pass copy"), ("bytes", "x.split_at(0).unwrap().0", "pass"), ("bytes", "x.noalloc_upgrade().unwrap()", "own moved")],
    "box": [("rf", "&*x", "shr"), ("rm", "&mut *x", "mut"), ("rbox", "rbox(x)", "pass")],
    "rbox": [("rf", "&*x", "shr"), ("rm", "&mut *x", "mut"), ("box", "x.into()", "pass"), ("rbox", "x.clone()", "own")],
    "topt": [("rf", "x.as_ref().unwrap()", "shr"), ("rm", "x.as_mut().unwrap()", "mut"), ("topt", "x.take()", "own")],
    "rf": [("topr", "TaggedOption::from(x)", "pass")],
    "rm": [("rf", "&*x", "shr")],
    "topr": [("rf", "x.into_rust().unwrap()", "pass")],
    "bo": [("vp", "VirtualPtr::<dyn Tr + '_>::from(::std::boxed::Box::new(x))", "pass"), ("vp", "VirtualPtr::<dyn Tr + '_>::from(&x)", "shr"), ("vpm", "VirtualPtr::<dyn Tm + '_>::from(&mut x)", "mut"),
           ("vpm", "VirtualPtr::<dyn Tm + '_>::from(::std::boxed::Box::new(x))", "pass"), ("clo", "|| { let _ = &x; }", "shr"), ("clo", "|| { poke(&mut x); }", "mut")],
    "clo": [("refd", "RefDynFnMut0::new(&mut x)", "mut"), ("refd", "RefDynFnMut0::from(&mut x)", "mut")],
    "num": [("out", "x.as_out()", "mut"), ("rf", "&x", "shr")],
    "out": [("out", "x.r()", "mut"), ("rm", "x.write(3u8)", "pass")],
    "vp": [], "vpm": [], "refd": [],
}
COPY = {"sl", "cref", "st", "sref", "cpr", "rf"}
DROPS = {"bytes", "vp", "vpm"}  # use what they borrow when they go out of scope
OWNERS = {"vec": "vec![@, @]", "string": 'String::from("abc")', "box": "::std::boxed::Box::new(@)", "topt": "TaggedOption::Some(@)", "num": "5u8", "rvec": "repr_c::Vec::from(vec![@])",
          "cbox": "c_slice::Box::from(vec![@].into_boxed_slice())", "bytes": "Bytes::from(vec![1u8; 40])", "rbox": "rbox0(@)", "cpb": 'char_p::new("abc")', "rstr": 'repr_c::String::from("abc")',
          "sbox": 'str::Box::from("abc")'}
ELEMS = {"u8": "1u8", "u32": "7u32", "SS": "ss()", "bool": "true", "String": "String::new()", "repr_c::Vec<u8>": "repr_c::Vec::from(vec![1u8])"}


def chain(r):
    owner = r.choice(list(OWNERS) + ["vec", "string"])
    el = r.choice(list(ELEMS) + ["u8"] * 4) if owner not in ("bytes", "num") else "u8"
    st, steps = owner, []
    for _ in range(r.randint(1, 6)):
        opts = [s for s in STEPS[st] if len(s) < 4 or s[3] != U or el == U]
        if not opts:
            break
        s = r.choice(opts)
        if len(s) == 4 and s[3] == "becomes u8":
            el2 = U
        else:
            el2 = el
        steps.append(s)
        st, el = s[0], el2
        if owner == "string":
            el = U
    return owner, steps


EVENTS = ["peek", "poke", "drop", "static", "scope", "return", "thread", "assign"]


def chain_build(owner, el, steps, event, target, after):
    """-> (source, accepted?, why), or None where it is undecided"""
    states = [owner] + [s[0] for s in steps]
    n = len(steps)
    loans, moved = [{}], [False] * (n + 1)
    init = OWNERS[owner].replace("@", ELEMS[el])
    lines = [f"let mut x0 = {init};"]
    for k, s in enumerate(steps):
        kind = s[2]
        ln = {}
        if not kind.startswith("own"):
            ln.update(loans[k])
        if kind in ("shr", "mut"):
            ln[k] = kind
        loans.append(ln)
        if kind in ("pass", "own moved") and states[k] not in COPY:
            moved[k] = True
        e = _sub(s[1], f"x{k}")
        lines.append(f"let mut x{k + 1} = {e};")
    live = [k for k in range(n + 1) if (k == n and after) or (states[k] in DROPS and not moved[k] and not (k == n and not after))]
    held = lambda j, kinds=("shr", "mut"): any(loans[k].get(j) in kinds for k in live)
    use = f"drop(x{n});"
    before = [] if after else [use]
    ok, why = True, "nothing borrowed is in use any more"
    if event in ("peek", "poke", "drop", "assign"):
        if moved[target] or target == n:
            return None
        if event == "assign" and (target != 0):
            return None
        if event in ("poke",) and states[target] in ("clo",):
            return None
        if event == "peek":
            ev, ok = f"peek(&x{target});", not held(target, ("mut",))
        elif event == "poke":
            ev, ok = f"poke(&mut x{target});", not held(target)
        elif event == "drop":
            if states[target] == "topt":  # Copy or not, as its element
                return None
            ev = f"drop(x{target});"
            ok = not held(target, ("mut",)) if states[target] in COPY or (target == 0 and owner == "num") else not held(target)
        else:
            ev, ok = f"x0 = {init};", not held(0)
        if not ok:
            why = f"x{target} is still borrowed"
        body = lines + before + [ev] + ([use] if after else [])
    elif event in ("static", "thread"):
        if event == "thread" and any(s in ("vp", "vpm", "clo") for s in states[n:]):
            return None
        ev = f"stat(&x{n});" if event == "static" else f"send(x{n});"
        ok = not loans[n]
        if states[n] == "clo":
            return None
        why = "nothing is borrowed" if ok else "a local is borrowed for 'static"
        body = lines + [ev]
    elif event == "scope":
        inner = [f"let y; {{"] + lines + [f"y = x{n};", "}", "drop(y);"]
        # everything but x_n ends with the inner block
        ok = not loans[n]
        why = "nothing is borrowed" if ok else "what is borrowed does not live long enough"
        body = inner
    else:
        body = ["let g = || {"] + lines + [f"x{n}", "};", "drop(g());"]
        ok = not loans[n]
        why = "nothing is borrowed" if ok else "a local is borrowed by what is returned"
    return "pub fn f() { " + " ".join(body) + " }", ok, why


def _sub(e, x):
    return re.sub(r"\bx\b", x, e)


def chain_item(r, n):
    for _ in range(200):
        owner, steps = chain(r)
        el = "u8" if any(len(s) > 3 and s[3] == U for s in steps) or owner == "num" else r.choice(list(ELEMS))
        event = r.choice(EVENTS)
        target, after = r.randrange(len(steps)) if steps else 0, r.random() < 0.7
        it = mk_chain(owner, el, steps, event, target, after)
        if it:
            return it


def mk_chain(owner, el, steps, event, target, after):
    b = chain_build(owner, el, steps, event, target, after)
    if not b:
        return None
    src, ok, why = b

    def smaller():
        if steps and target < len(steps) - 1:
            yield mk_chain(owner, el, steps[:-1], event, target, after)
        if event in ("static", "scope", "return", "thread") and len(steps) > 1:
            yield mk_chain(owner, el, steps[:-1], event, target, after)
        if el != "u8":
            yield mk_chain(owner, "u8", steps, event, target, after)
    return dict(src=src, ok=ok, why=why, phase="borrow", group="chains of views", key=str((owner, [s[:3] for s in steps], event, target, after)), smaller=lambda: [x for x in smaller() if x])


# -- ownership, exclusivity and unsafety, one by one ------------------------------------------------------------------

def misc_item(r, n):
    t, e = r.choice(list(ELEMS.items()))
    owned = r.choice([("rbox0(@)"), ("repr_c::Vec::from(vec![@])"), ("c_slice::Box::from(vec![@].into_boxed_slice())"), 'repr_c::String::from("a")', 'str::Box::from("a")',
                      'char_p::new("a")', "Bytes::from(vec![1u8])", "BoxDynFnMut0::new(::std::boxed::Box::new(|| ()))", "ArcDynFn0::new(Arc::new(|| ()))",
                      "VirtualPtr::<dyn Tr>::from(::std::boxed::Box::new(ss()))", "VirtualPtr::<dyn Tc>::from(::std::boxed::Box::new(ss()))", "TaggedOption::Some(String::new())",
                      "Tuple2 { _0: String::new(), _1: @ }"]).replace("@", e)
    raw = "unsafe { ::core::mem::zeroed::<c_slice::Raw<u8>>() }"
    U_ = [  # calls that need `unsafe`
        f"let x: c_slice::Raw<{t}> = todo!(); let _y = @(x.as_ref());", f"let mut x: c_slice::Raw<{t}> = todo!(); let _y = @(x.as_mut());",
        "let x: char_p::Raw = todo!(); let _y = @(x.as_ref());", "let _y = @(char_p::Ref::from_ptr_unchecked(todo!()));", "let _y = @(char_p::Box::from_ptr_unchecked(todo!()));",
        "let _y: VirtualPtr<dyn Tr> = @(VirtualPtr::from_raw_parts(todo!(), todo!()));",
        f"let x: ptr::NonNullOwned<{t}> = todo!(); @(x.drop_in_place::<{t}>());", f"let x: ptr::NonNullOwned<{t}> = todo!(); @(x.dealloc::<{t}>());",
        f"let x: ptr::NonNullOwned<{t}> = todo!(); @(x.drop_in_place_and_dealloc::<{t}>());",
        "@(ex());",
        "use ::safer_ffi::layout::*; let _y: bool = @(from_raw::<bool>(todo!())).unwrap();",
        f"use ::safer_ffi::layout::*; let _y: SS = @(from_raw_unchecked::<SS>(todo!()));",
    ]
    k = r.randrange(6)
    if k == 0:
        bad = r.random() < 0.5
        how = r.choice(["let _b = a;", "drop(a);", "send2(a);", "let _c = move || { let _ = &a; };", "let _v = vec![a];"])
        uses = r.choice(["peek(&a);", "drop(a);", "let _b2 = a;"])
        pre = "fn send2<X>(_: X) {} "
        return dict(src=f"pub fn f() {{ {pre}let a = {owned}; {how if bad else 'peek(&a);'} {uses} }}", ok=not bad, phase="borrow", group="ownership", key=str((owned.split("(")[0], how, uses, bad)),
                    why="the value is used after it was moved" if bad else "the value is moved once")
    if k in (1, 2):
        e = r.choice(U_)
        bad = r.random() < 0.6
        return dict(src=f"#[ffi_export] pub unsafe fn ex() {{}}\npub fn f() {{ {_unsafe(e, bad)} }}",
                    ok=not bad, phase="type", group="unsafety", key=str((e.split("@")[1][:40], bad)), why="the function is unsafe" if bad else "the call is in an unsafe block")
    if k == 3:
        fields = [("repr_c::Vec::from(vec![1u8])", ["ptr", "len", "cap"]), ("rbox0(1u8)", ["0"]), ("c_slice::Ref::from(&[1u8][..])", ["ptr", "len"]),
                  ("c_slice::Mut::from(&mut [1u8][..])", ["ptr", "len"]), ("c_slice::Box::from(vec![1u8].into_boxed_slice())", ["ptr", "len"]), ("char_p::new(\"a\")", ["0"]),
                  ("Bytes::from(vec![1u8])", ["start", "len", "data", "vtable", "capacity"]), ("BoxDynFnMut0::<()>::new(::std::boxed::Box::new(|| ()))", ["env_ptr", "call", "free"]),
                  ("ArcDynFn0::<()>::new(Arc::new(|| ()))", ["env_ptr", "call", "release", "retain"]), ("repr_c::String::from(\"a\")", ["0"]),
                  ("VirtualPtr::<dyn Tr>::from(::std::boxed::Box::new(ss()))", ["0"])]
        v, fs = r.choice(fields)
        fd = r.choice(fs)
        return dict(src=f"pub fn f() {{ let mut a = {v}; {r.choice(['peek(&a.@);', 'poke(&mut a.@);', 'let _b = a.@;']).replace('@', fd)} }}", ok=False, phase="type", group="encapsulation", key=str((v, fd)),
                    why="the fields that uphold the type's guarantees are private")
    if k == 4:
        bodies = [  # (item, accepted?, why)
            ("#[ffi_export] pub fn e§<'a>(x: &'a @) -> &'static @ { x }", False, "the result outlives the argument"),
            ("#[ffi_export] pub fn e§<'a>(x: &'a @) -> &'a @ { x }", True, "the result lives as long as the argument"),
            ("#[ffi_export] pub fn e§<'a, 'b>(x: &'a @, y: &'b @) -> &'a @ { let _ = x; y }", False, "the result has the other argument's lifetime"),
            ("#[ffi_export] pub fn e§<'a, 'b: 'a>(x: &'a @, y: &'b @) -> &'a @ { let _ = x; y }", True, "'b outlives 'a"),
            ("#[ffi_export] pub fn e§(x: &@) -> &@ { x }", True, "the result lives as long as the argument"),
            ("#[ffi_export] pub fn e§(x: c_slice::Ref<'_, @>) -> Option<&@> { x.as_slice().first() }", True, "the result lives as long as the argument"),
            ("#[ffi_export] pub fn e§(x: c_slice::Ref<'_, @>) -> c_slice::Ref<'static, @> { x }", False, "the result outlives the argument"),
            ("#[ffi_export] pub fn e§<'a>(x: &'a @) -> c_slice::Ref<'a, @> { let v = [0u8]; let y = *x; c_slice::Ref::from(::core::slice::from_ref(&y)) }", False, "the result borrows a local"),
            ("#[ffi_export] pub fn e§<'a>(x: &'a @) -> c_slice::Ref<'a, @> { c_slice::Ref::from(::core::slice::from_ref(x)) }", True, "the result lives as long as the argument"),
            ("#[ffi_export] pub fn e§(x: &@) { *x = unsafe { ::core::mem::zeroed() }; }", False, "the argument is a shared reference"),
            ("#[ffi_export] pub fn e§(x: &mut @) { *x = unsafe { ::core::mem::zeroed() }; }", True, "the argument is an exclusive reference"),
            ("#[ffi_export] pub fn e§(x: repr_c::Box<@>) { drop(x); peek(&x); }", False, "the argument is used after it was moved"),
            ("#[ffi_export] pub fn e§(x: @) { q(); }\nunsafe fn q() {}", False, "an unsafe function is called outside of `unsafe`"),
            ("#[ffi_export] pub fn e§(x: @) { unsafe { q(); } }\nunsafe fn q() {}", True, "an unsafe function is called inside of `unsafe`"),
            ("#[ffi_export] pub fn e§(x: @) -> @ { let y: bool = x; x }", False, "the body is ill-typed"),
            ("#[ffi_export] pub fn e§(x: @) -> @ { }", False, "the body is ill-typed"),
            ("#[ffi_export] pub fn e§(x: VirtualPtr<dyn Tm>) { x.m(); }", False, "the method takes `&mut self`"),
            ("#[ffi_export] pub fn e§(mut x: VirtualPtr<dyn Tm>) { x.m(); }", True, "the method takes `&mut self`, and the argument is `mut`"),
            ("#[ffi_export] pub fn e§(x: &VirtualPtr<dyn Tm>) { x.m(); }", False, "the method takes `&mut self`"),
            ("#[ffi_export] pub fn e§(x: &VirtualPtr<dyn Tr>) { x.m(); }", True, "the method takes `&self`"),
            ("#[ffi_export] pub fn e§(x: &repr_c::Box<dyn Send + FnMut()>) { x.call(); }", False, "calling it takes `&mut`"),
            ("#[ffi_export] pub fn e§(x: &mut repr_c::Box<dyn Send + FnMut()>) { x.call(); }", True, "calling it takes `&mut`"),
            ("#[ffi_export] pub fn e§(x: &repr_c::Arc<dyn Send + Sync + Fn()>) { x.call(); }", True, "calling it takes `&`"),
            ("#[ffi_export] pub fn e§(x: &RefDynFnMut0<'static, ()>) { x.call(); }", False, "calling it takes `&mut`"),
            ("#[ffi_export] pub fn e§(mut x: RefDynFnMut0<'_, ()>) { x.call(); }", True, "calling it takes `&mut`"),
            ("#[ffi_export] pub fn e§(x: c_slice::Mut<'_, @>) { poke(&mut x[..]); }", False, "the argument is not `mut`"),
            ("#[ffi_export] pub fn e§<'a, 'b: 'a>(x: &'a c_slice::Mut<'b, @>) { peek(&x[..]); let _y = x.as_slice(); }", False, "an exclusive view cannot be moved out of a reference"),
            ("#[ffi_export] pub fn e§<'a, 'b: 'a>(x: &'a c_slice::Mut<'b, @>) { peek(&x[..]); let _y = x.as_ref(); }", True, "it is only read"),
            ("#[ffi_export] pub fn e§(x: c_slice::Ref<'_, @>) { poke(&mut x[..]); }", False, "a shared view gives no `&mut`"),
            ("#[ffi_export] pub fn e§(mut x: c_slice::Ref<'_, @>) { poke(&mut x[0]); }", False, "a shared view gives no `&mut`"),
            ("#[ffi_export] pub fn e§(mut x: repr_c::Vec<@>) { poke(&mut x[0]); }", True, "the vector is owned"),
            ("#[ffi_export] pub fn e§(x: &repr_c::Vec<@>) { poke(&mut x[0]); }", False, "the vector is shared"),
            ("#[ffi_export] pub fn e§(x: &repr_c::Box<@>) -> @ { **x }", True, "it is only read"),
            ("#[ffi_export] pub fn e§(x: &repr_c::Box<repr_c::Box<@>>) { let _y = **x; }", False, "what is behind a reference cannot be moved out"),
            ("#[ffi_export] pub fn e§(x: &repr_c::Box<@>) { poke(&mut **x); }", False, "the box is shared"),
            ("#[ffi_export] pub fn e§(mut x: Bytes<'_>) { poke(&mut x[..]); }", False, "bytes are shared"),
            ("#[ffi_export] pub fn e§(mut x: repr_c::Vec<@>) { let mut s = None; x.with_rust_mut(|v| s = Some(v)); peek(&s); }", False, "the vector escapes its callback"),
            ("#[ffi_export] pub fn e§(mut x: repr_c::Vec<@>) -> usize { x.with_rust_mut(|v| { v.push(unsafe { ::core::mem::zeroed() }); v.len() }) }", True, "the vector is used within its callback"),
            ("#[ffi_export] pub fn e§(mut x: repr_c::String) { let mut s = None; x.with_rust_mut(|v| s = Some(v)); peek(&s); }", False, "the string escapes its callback"),
            ("#[ffi_export] pub fn e§(mut x: repr_c::String) { x.with_rust_mut(|v| v.push('a')) }", True, "the string is used within its callback"),
        ]
        j = r.randrange(len(bodies))
        src, ok, why = bodies[j]
        p = r.choice(["u8", "u16", "u32", "i64", "f32"])
        return dict(src=src.replace("@", p).replace("§", str(n)), ok=ok, why=why, phase="borrow" if not ok else "ok", group="exported functions", key=str((j, p)))
    forms = [("VirtualPtr<dyn Tr>", "::std::thread::spawn(move || x.m());", False, "it is not Send"), ("VirtualPtr<dyn Tr + Send + Sync>", "::std::thread::spawn(move || x.m());", True, "it is Send"),
             ("repr_c::Box<dyn Send + FnMut()>", "::std::thread::spawn(move || { let mut x = x; x.call() });", True, "it is Send"),
             ("repr_c::Box<dyn Send + FnMut()>", "::std::thread::scope(|s| { s.spawn(|| peek(&x)); });", False, "it is not Sync"),
             ("repr_c::Arc<dyn Send + Sync + Fn()>", "::std::thread::scope(|s| { s.spawn(|| x.call()); });", True, "it is Sync"),
             ("repr_c::Vec<NN>", "::std::thread::spawn(move || peek(&x));", False, "it is not Send"), ("repr_c::Vec<SN>", "::std::thread::spawn(move || peek(&x));", True, "it is Send"),
             ("repr_c::Vec<SN>", "::std::thread::scope(|s| { s.spawn(|| peek(&x)); });", False, "it is not Sync"),
             ("repr_c::Vec<NS>", "::std::thread::scope(|s| { s.spawn(|| peek(&x)); });", True, "it is Sync"),
             ("c_slice::Ref<'_, NS>", "::std::thread::scope(|s| { s.spawn(move || peek(&x)); });", True, "it is Send"),
             ("c_slice::Ref<'_, SN>", "::std::thread::scope(|s| { s.spawn(move || peek(&x)); });", False, "it is not Send"),
             ("c_slice::Mut<'_, SN>", "::std::thread::scope(|s| { s.spawn(move || peek(&x)); });", True, "it is Send"),
             ("c_slice::Mut<'_, NS>", "::std::thread::scope(|s| { s.spawn(move || peek(&x)); });", False, "it is not Send"),
             ("c_slice::Ref<'_, SS>", "::std::thread::spawn(move || peek(&x));", False, "it is not 'static"),
             ("Bytes<'_>", "::std::thread::spawn(move || peek(&x));", False, "it is not 'static"), ("Bytes<'static>", "::std::thread::spawn(move || peek(&x));", True, "it is Send"),
             ("Bytes<'_>", "::std::thread::scope(|s| { s.spawn(|| peek(&x)); });", True, "it is Sync"),
             ("repr_c::Box<NN>", "::std::thread::spawn(move || peek(&x));", False, "it is not Send"), ("repr_c::Box<SS>", "::std::thread::spawn(move || peek(&x));", True, "it is Send")]
    j = r.randrange(len(forms))
    ty, body, ok, why = forms[j]
    return dict(src=f"pub fn f(x: {ty}) {{ {body} }}", ok=ok, why=why, phase="borrow" if "'static" in why else "type", group="threads", key=str(j))


NEST = ["c_slice::Ref<'@, #>", "c_slice::Mut<'@, #>", "char_p::Ref<'@>", "str::Ref<'@>", "Bytes<'@>", "&'@ #", "&'@ mut #", "Out<'@, #>", "RefDynFnMut1<'@, (), #>", "G<&'@ #>"]


def nested_item(r, n):
    """References to types with another lifetime: as parameters, they say which of the two lives longer."""
    t, p, m = r.choice(NEST), r.choice(["u8", "u32", "bool", "f64"]), r.choice(["", "mut "])
    t = t.replace("#", p)
    style = r.choice(["elided", "named", "bound"])
    lts, ty = {"elided": ("", f"&{m}{t.replace('@', '_')}"), "named": ("<'a, 'b>", f"&'a {m}{t.replace('@', 'b')}"), "bound": ("<'a, 'b: 'a>", f"&'a {m}{t.replace('@', 'b')}")}[style]
    if "&'_" in ty:
        ty = ty.replace("&'_ ", "&")
    return dict(src=f"#[ffi_export] pub fn e{n}{lts}(x: {ty}) {{}}", ok=True, phase="ok", group="exported functions" if style == "bound" else "nested lifetimes", key=str((t, m, style)),
                why="the same function is accepted without `#[ffi_export]`")


def _unsafe(e, bad):
    """`@(call)` -> the call, in an unsafe block unless `bad`"""
    a, b = e.split("@(", 1)
    depth = 1
    for k, c in enumerate(b):
        depth += (c == "(") - (c == ")")
        if depth == 0:
            break
    call, rest = b[:k], b[k + 1:]
    return a + (call if bad else "unsafe { " + call + " }") + rest


def check(ctx):
    r = random.Random(ctx.seed * 6131 + 3)
    f = 30 if ctx.thorough else 2
    items = []
    for gen, n in ((auto_item, 420), (variance_item, 240), (closure_item, 260), (vptr_item, 200), (convert_item, 40), (chain_item, 600), (misc_item, 330), (nested_item, 12)):
        k = 0
        while k < n * f:
            it = gen(r, len(items))
            if it:
                items.append(it)
                k += 1
    return rules.run(ctx, items, "an item counts as non-trivial through what it does: the types' structure, the flaw, the steps of a chain and the event", HEAD)


def replay(ctx, path):
    return rules.replay(ctx, path, HEAD)
