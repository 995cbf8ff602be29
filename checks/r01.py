"""R01: what has no C representation is refused when the crate is compiled; what the documentation promises is accepted."""
import random
import rules

HEAD = """
#[derive_ReprC] #[repr(C)] pub struct S { pub a: u8, pub b: u32 }
#[derive_ReprC] #[repr(u8)] pub enum E { A, B }
#[derive_ReprC] #[repr(transparent)] pub struct N(pub u16);
#[derive_ReprC] #[repr(C)] pub struct G<T> { pub a: T, pub b: u8 }
#[derive_ReprC] #[repr(C)] pub struct A2<T> { pub a: [T; 2], pub p: ::core::marker::PhantomData<T> }
#[derive_ReprC] #[repr(transparent)] pub struct W<T>(pub T);
#[derive_ReprC] #[repr(opaque)] pub struct O { pub a: String }
#[derive_ReprC] #[repr(opaque)] pub enum OE { A(u8), B }
#[derive_ReprC] #[repr(opaque)] pub struct OG<T> { pub a: T }
pub struct Plain { pub a: u8 }
#[repr(C)] pub struct PlainC { pub a: u8 }
#[repr(u8)] pub enum PlainE { A, B }
pub fn block_on<F: ::core::future::Future>(_: F) -> F::Output { unimplemented!() }
"""
C, O, N = "concrete", "opaque", "none"
PRIM = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64", "bool"]
OWN = ["S", "E", "N", "str::Ref<'static>", "str::Box", "repr_c::String", "char_p::Ref<'static>", "char_p::Box"]
NICHE_OWN = {"str::Ref<'static>", "str::Box", "repr_c::String", "char_p::Ref<'static>", "char_p::Box"}
OPAQUE = ["O", "OE", "OG<u8>", "OG<Plain>", "String", "Vec<u8>", "::std::boxed::Box<u8>", "::std::collections::HashMap<u8, Plain>", "::std::sync::Mutex<u8>",
          "::std::cell::RefCell<Plain>", "::std::rc::Rc<u8>", "::std::sync::Arc<Plain>"]
NONE = ["char", "u128", "i128", "(u8, u16)", "(u8,)", "Option<u8>", "Option<bool>", "Option<E>", "Option<S>", "Result<u8, u8>", "Plain", "PlainC", "PlainE",
        "::std::time::Duration", "::std::ops::Range<u8>", "::std::collections::BTreeSet<u8>", "::std::sync::Condvar",
        "fn(u8)", "fn()", 'extern "system" fn(u8)', 'extern "C" fn(&u8)', 'extern "C" fn(&u8) -> &u8', "::std::ffi::CString", "::std::string::FromUtf8Error",
        "::core::pin::Pin<&'static u8>", "Option<*const u8>", "Option<Option<&'static u8>>", "::std::borrow::Cow<'static, str>", "[u8; 0]",
        "repr_c::Box<dyn FnMut()>", "repr_c::Arc<dyn Fn()>", "repr_c::Arc<dyn Send + Fn()>", "&'static dyn Fn()", "Option<fn()>"]
LENS = [1, 2, 3, 4, 7, 16, 31, 32, 64, 100, 256, 1024]


def rs(t):
    g = t[0]
    if g == "leaf":
        return t[1]
    if g == "arr":
        return f"[{rs(t[2])}; {t[1]}]"
    if g == "fn":
        return f'{t[1]}extern "C" fn({", ".join(rs(x) for x in t[3])})' + ("" if t[2] is None else f" -> {rs(t[2])}")
    if g in ("clo", "aclo"):
        b = f"({', '.join(rs(x) for x in t[3])})" + ("" if t[2] is None else f" -> {rs(t[2])}")
        return f"repr_c::Box<dyn Send + FnMut{b}>" if g == "clo" else f"repr_c::Arc<dyn Send + Sync + Fn{b}>"
    return t[1].replace("@", rs(t[2]))


def kind(t):
    """C, O, N, or None where nothing is promised"""
    g = t[0]
    if g == "leaf":
        return C if t[1] in PRIM or t[1] in OWN else O if t[1] in OPAQUE else N
    if g == "arr":
        k = kind(t[2])
        return N if t[1] == 0 or k == O else k
    if g in ("fn", "clo", "aclo"):
        ks = [kind(x) for x in t[3]] + ([] if t[2] is None else [kind(t[2])])
        return N if N in ks else None if None in ks or O in ks else C
    k = kind(t[2])
    if g in ("ptr", "own"):
        return k and (C if k in (C, O) else N)
    if g in ("val",):  # takes part in the layout
        return k and (C if k == C else N)
    if g == "W":
        return k
    if g == "opt":
        n = niche(t[2])
        return None if k is None or n is None else N if k == N or not n else k if k == C else None
    raise ValueError(t)


def niche(t):
    g = t[0]
    if g == "leaf":
        return t[1] in NICHE_OWN or (None if t[1] in OPAQUE else False)
    if g in ("ptr", "own"):
        return None if t[1].startswith("c_slice::Raw") else t[1][0] != "*"
    if g == "fn":
        return True
    if g in ("clo", "aclo"):
        return None
    if g == "W":
        return niche(t[2])
    if g == "opt":
        return False
    return False


PTR = ["&'static @", "&'static mut @", "*const @", "*mut @", "::core::ptr::NonNull<@>"]
OWNING = ["repr_c::Box<@>", "repr_c::Vec<@>", "c_slice::Box<@>", "c_slice::Ref<'static, @>", "c_slice::Mut<'static, @>", "c_slice::Raw<@>"]
VAL = ["G<@>", "A2<@>", "::safer_ffi::option::TaggedOption<@>", "::safer_ffi::tuple::Tuple2<u8, @>", "::safer_ffi::tuple::Tuple3<@, u8, bool>"]


def gen(r, d, want=None):
    """A type of nesting depth at most d whose kind is not undecided."""
    while True:
        t = gen1(r, d, want)
        k = kind(t)
        if k is not None and (want is None or k == want):
            return t


def gen1(r, d, want):
    x = r.random()
    if d == 0 or x < 0.12:
        pool = {C: PRIM + OWN, O: OPAQUE, N: NONE}[want or r.choices([C, O, N], [5, 2, 2])[0]]
        return ["leaf", r.choice(pool)]
    sub = lambda w=None: gen1(r, d - 1, w or (r.choice([C, C, C, O, N]) if want != C else r.choice([C, C, C, O])))
    g = r.choice(["ptr", "ptr", "own", "own", "arr", "fn", "clo", "aclo", "val", "val", "W", "opt", "opt"])
    if g == "arr":
        return ["arr", 0 if want == N and r.random() < 0.3 else r.choice(LENS), sub()]
    if g in ("fn", "clo", "aclo"):
        n = r.choice([0, 1, 1, 2, 2, 3, 5, 9])
        args = [gen(r, min(d - 1, 1), C) for _ in range(n)]
        ret = None if r.random() < 0.4 else gen(r, min(d - 1, 1), C)
        if want != C and r.random() < 0.6:
            bad = gen(r, min(d - 1, 2), N)
            if args and r.random() < 0.7:
                args[r.randrange(n)] = bad
            else:
                ret = bad
        return [g, r.choice(["", "unsafe "]), ret, args]
    if g in ("ptr", "own", "val"):
        return [g, r.choice({"ptr": PTR, "own": OWNING, "val": VAL}[g]), sub()]
    if g == "W":
        return ["W", "W<@>", sub()]
    return ["opt", "Option<@>", sub()]


def parts(t):
    if t[0] == "leaf":
        return []
    if t[0] in ("fn", "clo", "aclo"):
        return t[3] + ([] if t[2] is None else [t[2]])
    return [t[2]]


def simpler(t):
    out = list(parts(t))
    if t[0] in ("fn", "clo", "aclo"):
        for k in range(len(t[3])):
            out.append([t[0], t[1], t[2], t[3][:k] + t[3][k + 1:]])
        if t[2] is not None:
            out.append([t[0], t[1], None, t[3]])
        for k, a in enumerate(t[3]):
            out += [[t[0], t[1], t[2], t[3][:k] + [s] + t[3][k + 1:]] for s in simpler(a)]
    elif t[0] != "leaf":
        out += [[t[0], t[1], s] for s in simpler(t[2])]
    return out


def shape(t):
    """Structure for counting distinct cases: constructors and leaf classes."""
    if t[0] == "leaf":
        return t[1] if t[1] not in PRIM else "prim"
    if t[0] in ("fn", "clo", "aclo"):
        return (t[0], len(t[3]), tuple(sorted({str(shape(x)) for x in parts(t)})))
    return (t[0], t[1] if isinstance(t[1], str) else "n", shape(t[2]))


POS = {
    "parameter": "#[ffi_export] pub fn §(_a: u8, _b: @) {}",
    "result": "#[ffi_export] pub fn §() -> @ { unimplemented!() }",
    "field": "#[derive_ReprC] #[repr(C)] pub struct P { a: u16, b: @, c: u8 }\n#[ffi_export] pub fn §(_: P) {}",
    "field behind a pointer": "#[derive_ReprC] #[repr(C)] pub struct P { b: @ }\n#[ffi_export] pub fn §(_: &P) {}",
    "transparent field": "#[derive_ReprC] #[repr(transparent)] pub struct P(pub @);\n#[ffi_export] pub fn §(_: P) {}",
    "async result": "#[ffi_export(executor = block_on)] pub async fn §() -> @ { ffi_await!(async move { unimplemented!() }) }",
    "method parameter": "#[derive_ReprC(dyn)] pub trait Tr { fn m(&self, a: u8, b: @); }\n#[ffi_export] pub fn §(_: VirtualPtr<dyn Tr>) {}",
    "method result": "#[derive_ReprC(dyn)] pub trait Tr { fn m(&self) -> @; }\n#[ffi_export] pub fn §(_: VirtualPtr<dyn Tr>) {}",
}


def type_item(pos, t, n):
    k = kind(t)
    if "field" in pos and t[0] == "ptr" and t[1][0] in "&*" and t[2][0] == "fn" and t[2][2] is None:  # rustc cannot parse `where &fn() : ReprC`
        return None
    if pos == "transparent field" and "&u8)" in rs(t) and (t[0] == "fn" or "fn(&u8)" in rs(t)[:20]):  # newtypes of such function pointers are supported
        return None
    if pos.startswith("method") and (k == O or k is None or "&u8" in rs(t)):  # lifetimes of methods' types are erased
        return None
    why = {C: f"`{rs(t)}` has a C representation", O: f"`{rs(t)}` is opaque and stands for a value here", N: f"`{rs(t)}` has no C representation"}[k]
    return dict(src=POS[pos].replace("@", rs(t)).replace("§", f"f{n}"), ok=k == C, why=why, key=str((pos, shape(t))), group=pos, phase="type",
                smaller=lambda: [i for s in simpler(t) if kind(s) is not None for i in [type_item(pos, s, n)] if i])


INTS = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"]


def struct_item(r, n):
    base = r.choice(["C", "C", "C", "transparent", "opaque", None, "Rust", "u8"])
    mod = r.choice([None, None, None, "packed", "packed(2)", "align(8)", "align(16)"])
    joined = r.random() < 0.5
    nf = r.choice([0, 1, 1, 2, 3])
    style = r.choice(["named", "named", "tuple"]) if nf else r.choice(["named", "unit"])
    if base == "opaque":
        style, mod = "named", None
    attrs = []
    if base:
        attrs.append([base])
    if mod:
        if joined and attrs:
            attrs[0].append(mod)
        else:
            attrs.append([mod])
            if r.random() < 0.5:
                attrs.reverse()
    extra = r.sample(["/// Documentation.", "#[derive(Debug)]", "#[allow(dead_code)]"], r.randint(0, 2))
    lines = ["#[derive_ReprC]"] + [f"#[repr({', '.join(a)})]" for a in attrs]
    for e in extra:
        lines.insert(r.randint(1, len(lines)), e)
    ts = [rs(gen(r, 1, C)) for _ in range(nf)] if "#[derive(Debug)]" not in extra else [r.choice(PRIM) for _ in range(nf)]
    body = {"named": " { " + ", ".join(f"pub f{k}: {x}" for k, x in enumerate(ts)) + " }", "tuple": "(" + ", ".join("pub " + x for x in ts) + ");", "unit": ";"}[style]
    ok = mod is None and {"C": nf > 0, "transparent": nf == 1, "opaque": True}.get(base, False)
    why = "the struct has a supported representation and a field" if ok else \
        f"its representation is `{attrs}`, with {nf} fields" + (f": `{mod}` is not part of the C layout" if mod else "")
    if base in ("C", "transparent") and style != "unit" and ts and r.random() < 0.4:  # markers do not count
        ts.insert(r.randint(0, len(ts)), r.choice(["::core::marker::PhantomData<u64>", "std::marker::PhantomData<(u8, u16)>", "()"] if base != "C" else ["::core::marker::PhantomData<u64>"]))
        body = {"named": " { " + ", ".join(f"pub f{k}: {x}" for k, x in enumerate(ts)) + " }", "tuple": "(" + ", ".join("pub " + x for x in ts) + ");"}[style]
    ref = "&" if base == "opaque" or r.random() < 0.5 else ""
    return dict(src="\n".join(lines) + f"\npub struct P{body}\n#[ffi_export] pub fn f{n}(_: {ref}P) {{}}", ok=ok, why=why, group="struct declaration",
                key=str((base, mod, joined, nf, style)), phase="expand")


def enum_item(r, n):
    rep = r.choice(INTS + [None, "u128", "transparent", "Rust", "f32"]) if r.random() < 0.8 else "u8"
    mod = r.choice([None, None, None, "align(4)", "align(16)"])
    flaw = r.choice([None, None, None, None, "tuple", "struct", "empty", "generic", "lifetime"])
    nv = 0 if flaw == "empty" else r.randint(1, 5)
    vs, seen, cur = [], set(), -1
    for k in range(nv):
        if not flaw and r.random() < 0.4:
            cur = max(cur + 1, r.randint(0, 20) + cur + 1)
            if cur < 120:
                vs.append(f"V{k} = {cur}")
                continue
        cur += 1
        vs.append(f"V{k}")
    if flaw == "tuple":
        vs[r.randrange(nv)] = "T(u8)"
    if flaw == "struct":
        vs[r.randrange(nv)] = "T { a: u8 }"
    g = ""
    if flaw == "generic":
        vs.append("T(::core::marker::PhantomData<X>)")
        g = "<X>"
    if flaw == "lifetime":
        vs.append("T(::core::marker::PhantomData<&'x u8>)")
        g = "<'x>"
    reps = ([f"#[repr({rep})]"] if rep else []) + ([f"#[repr({mod})]"] if mod else [])
    r.shuffle(reps)
    ok = rep in INTS and not mod and not flaw
    why = "the enum has no fields and an integer representation" if ok else f"its representation is `{rep}`" + (f" with {mod}" if mod else "") + (f"; it is/has: {flaw}" if flaw else "")
    inst = {"generic": "P<u8>", "lifetime": "P<'static>"}.get(flaw, "P")
    return dict(src="#[derive_ReprC]\n" + "\n".join(reps) + f"\npub enum P{g} {{ {', '.join(vs)} }}\n#[ffi_export] pub fn f{n}(_: {r.choice(['', '&'])}{inst}) {{}}", ok=ok, why=why,
                group="enum declaration", key=str((rep, mod, flaw, nv)), phase="expand")


def decl_item(r, n):
    f = f"f{n}"
    ty = lambda: rs(gen(r, r.randint(0, 2), C))
    forms = [
        # (source, accepted?, why)
        (f"#[derive_ReprC] #[repr(C)] pub union P {{ a: {r.choice(PRIM)}, b: u8 }}", False, "unions are not supported"),
        (f"#[derive_ReprC] #[repr({r.choice(['C', 'u8', 'opaque'])})] pub type P = {ty()};", False, "a type alias has no representation of its own"),
        (f"#[derive_ReprC] pub trait P {{ fn m(&self, _: {r.choice(PRIM)}); }}", False, "a trait needs `dyn`"),
        (f"#[derive_ReprC(dyn)] pub trait P {{ fn m(&self, _: {ty()}); }}\n#[ffi_export] pub fn {f}(_: VirtualPtr<dyn P>) {{}}", True, "the trait's methods have C representations"),
        (f"#[derive_ReprC(dyn)] pub trait P {{ fn m<T>(&self, _: {r.choice(PRIM)}); }}\n#[ffi_export] pub fn {f}(_: VirtualPtr<dyn P>) {{}}", False, "a generic method has no entry in a table"),
        (f"#[derive_ReprC(dyn)] pub trait P {{ fn m(self, _: {r.choice(PRIM)}); }}\n#[ffi_export] pub fn {f}(_: VirtualPtr<dyn P>) {{}}", False, "a method by value cannot be called through a pointer"),
        (f"#[derive_ReprC(dyn)] pub trait P {{ fn m(_: {r.choice(PRIM)}) -> u8; }}\n#[ffi_export] pub fn {f}(_: VirtualPtr<dyn P>) {{}}", False, "a function without a receiver cannot be called through a pointer"),
        (f"#[ffi_export] pub fn {f}<T>(_: {ty()}) {{}}", False, "exported functions cannot have type parameters"),
        (f"#[ffi_export] pub fn {f}<T: ReprC>(_: {ty()}, _: T) {{}}", False, "exported functions cannot have type parameters"),
        (f"#[ffi_export] pub fn {f}<T>() -> {ty()} where T: Default {{ unimplemented!() }}", False, "exported functions cannot have type parameters"),
        (f"#[ffi_export] pub fn {f}<const K: usize>(_: {ty()}) {{}}", False, "exported functions cannot have const parameters"),
        (f"#[ffi_export] pub fn {f}<const K: usize>(_: [u8; K]) {{}}", False, "exported functions cannot have const parameters"),
        (f"#[ffi_export] pub fn {f}(_: {ty()}, _: impl ReprC) {{}}", False, "exported functions cannot have type parameters"),
        (f"#[ffi_export] pub fn {f}(_: u8) -> impl ReprC {{ 0u8 }}", False, "the result's type has no name"),
        (f"#[ffi_export] pub fn {f}<'a, 'b: 'a>(_: &'a {r.choice(PRIM)}, _: c_slice::Ref<'b, {r.choice(PRIM)}>) -> &'a u8 {{ unimplemented!() }}", True, "lifetime parameters are allowed"),
        (f"#[ffi_export] pub fn {f}<'a>(x: c_slice::Ref<'a, {(p := r.choice(PRIM))}>) -> Option<&'a {p}> {{ x.as_slice().first() }}", True, "lifetime parameters are allowed"),
        (f"#[ffi_export] pub {r.choice(['', 'unsafe '])}{r.choice(['', 'extern ' + chr(34) + 'C' + chr(34) + ' '])}fn {f}(_: {ty()}) {{}}", True, "every type has a C representation"),
        (f"#[ffi_export] pub extern \"{r.choice(['Rust', 'system', 'sysv64', 'win64', 'fastcall'])}\" fn {f}(_: {ty()}) {{}}", False, "only functions of the C ABI are exported"),
        (f"#[ffi_export] pub async fn {f}(_: {ty()}) {{}}", False, "an async function needs an executor"),
        (f"#[ffi_export] pub async fn {f}(_: {ty()}) {{ ffi_await!(async move {{}}) }}", False, "an async function needs an executor"),
        (f"#[ffi_export(executor = block_on)] pub async fn {f}(_: {r.choice(PRIM)}) -> u8 {{ ffi_await!(async move {{ 3u8 }}) }}", True, "the async function has an executor"),
        (f"#[ffi_export({r.choice(['foo', 'foo = 1', 'name = 3', 'rename = 3', 'rename', 'executor'])})] pub fn {f}(_: {ty()}) {{}}", False, "the attribute's argument is none that is known"),
        (f"#[ffi_export(rename = \"g{f}\")] pub fn {f}(_: {ty()}) {{}}", True, "functions can be renamed"),
        (f"pub struct X; impl X {{ #[ffi_export] pub fn {f}(&self) {{}} }}", False, "methods cannot be exported"),
        (f"#[ffi_export] pub fn {f}(_: {ty()}, ...) {{}}", False, "variadic functions cannot be exported"),
        (f"#[ffi_export] pub struct P {{ a: {ty()} }}", False, "`Plain` structs cannot be exported"),
        (f"#[ffi_export] pub mod p {{ pub fn {f}() {{}} }}", False, "modules cannot be exported"),
        (f"#[ffi_export] pub trait P {{ fn {f}(&self); }}", False, "traits cannot be exported"),
        (f"#[ffi_export] pub use ::core::mem;", False, "imports cannot be exported"),
        (f"#[ffi_export] pub const K{n}: {(p := r.choice(INTS))} = {r.randint(0, 100)};", True, "constants of integer types can be exported"),
        (f"#[ffi_export] pub const K{n}: {r.choice(NONE[:14])} = unimplemented!();", False, "the constant's type has no C representation"),
        (f"#[derive_ReprC] #[repr(C)] pub struct P<T> {{ a: T, b: {ty()} }}\n#[ffi_export] pub fn {f}(_: P<{ty()}>) {{}}", True, "the generic struct is used with a type that has a C representation"),
        (f"#[derive_ReprC] #[repr(C)] pub struct P<T> {{ a: T, b: {ty()} }}\n#[ffi_export] pub fn {f}(_: P<{rs(gen(r, 1, N))}>) {{}}", False, "the generic struct is used with a type that has no C representation"),
        (f"#[derive_ReprC] #[repr(C)] pub struct P<T> {{ a: T, b: {ty()} }}\n#[ffi_export] pub fn {f}(_: P<{r.choice(OPAQUE)}>) {{}}", False, "the generic struct is used with an opaque type by value"),
        (f"#[derive_ReprC] #[repr(C)] pub struct P<T> {{ a: *mut T, b: {ty()} }}\n#[ffi_export] pub fn {f}(_: P<{r.choice(OPAQUE)}>) {{}}", True, "the generic struct only points to the opaque type"),
        (f"#[derive_ReprC] #[repr(opaque)] pub struct P<T> {{ a: T, b: {r.choice(NONE[:20])} }}\n#[ffi_export] pub fn {f}(_: &P<{ty()}>) {{}}", True, "opaque types may contain anything"),
        (f"#[derive_ReprC] #[repr(opaque)] pub struct P<T> {{ a: T, b: {rs(gen(r, 1, C))} }}\n#[ffi_export] pub fn {f}(_: P<{ty()}>) {{}}", False, "an opaque type is passed by value"),
    ]
    k = r.randrange(len(forms))
    src, ok, why = forms[k]
    return dict(src=src, ok=ok, why=why, group="declaration", key=str((k, src.replace(f, "f"))), phase="expand" if not ok else "ok")


def check(ctx):
    r = random.Random(ctx.seed * 7919 + 11)
    nt, nd = (22000, 9000) if ctx.thorough else (1500, 900)
    items = []
    while len(items) < nt:
        pos = r.choice(list(POS))
        it = type_item(pos, gen(r, r.choice([0, 1, 1, 2, 2, 3, 4]), r.choice([C, C, C, O, N, N])), len(items))
        if it:
            items.append(it)
    for k in range(nd):
        items.append(r.choice([struct_item, struct_item, enum_item, decl_item, decl_item])(r, nt + k))
    return rules.run(ctx, items, "an item counts as non-trivial through its position or kind of declaration and the structure of its types (primitive types are one)", HEAD)


def replay(ctx, path):
    return rules.replay(ctx, path, HEAD)
