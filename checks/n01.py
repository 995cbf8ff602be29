"""N01: the C name of every exportable type is computed, a valid identifier, and stable.

Opaque types are named after `type_name()` of whatever Rust types they are instantiated with."""
import json, os, random, re, shutil
from common import CheckError
import csharp, hdr_c, hdr_x, progbuild, progen

RULE = ("evaluation = one name, or one header in one language through its compiler or parser. Non-trivial and distinct = a distinct opaque instance whose arguments "
        "nest at least two type constructors, or a distinct type of a generated program built from at least two constructors")
PRELUDE = r'''#![allow(warnings)]
use progrt::safer_ffi;
use safer_ffi::prelude::*;
use progrt::Facts;
progrt::exports!();
use std::marker::PhantomData;
pub mod m1 { pub struct Plain; pub struct Gen<T: ?Sized>(pub std::marker::PhantomData<T>); pub enum En { A }
  pub mod r#type { pub struct Deep<'a, T: ?Sized, const N: usize>(pub &'a (), pub std::marker::PhantomData<T>); pub struct r#Match; }
  pub mod ünï { pub struct Çé<T>(pub T); } }
pub struct Arr<const N: usize>;
pub struct Flag<const B: bool>;
pub struct Ch<const C: char>;
pub struct Neg<const I: i64>;
pub trait Tr<T: ?Sized> { type Out; fn f(&self); }
pub trait Plainly {}
#[derive_ReprC] #[repr(opaque)] pub struct Op<T: ?Sized> { p: PhantomData<T> }
#[derive_ReprC] #[repr(opaque)] pub struct Two<A: 'static, B: 'static> { p: PhantomData<(A, B)> }
#[derive_ReprC] #[repr(opaque)] pub struct Lt<'lt, T: 'static> { p: PhantomData<&'lt T> }
pub mod inner { use super::*; #[derive_ReprC] #[repr(opaque)] pub struct Within<T: 'static> { p: PhantomData<T> } }
'''


class TyGen:
    def __init__(self, r, unicode=False):
        self.r, self.unicode, self.lt = r, unicode, 0

    def sized(self, d):
        r = self.r
        if d <= 0:
            return r.choice(["u8", "i64", "bool", "char", "f32", "()", "String", "m1::Plain", "m1::En", "Arr<7>", "Flag<true>", "usize", "u128", "Ch<'x'>", "Ch<'>'>", "Ch<','>", "Ch<'\\''>", "Neg<-5>",
                             "m1::r#type::r#Match", "std::time::Duration", "std::path::PathBuf", "std::sync::atomic::AtomicU8", "&'static str", "std::num::NonZeroU8", "std::convert::Infallible", "!"][:-1])
        s, u = lambda: self.sized(d - 1 - r.randrange(2)), lambda: self.any(d - 1 - r.randrange(2))
        k = r.randrange(22)
        if k == 0:
            return f"Vec<{s()}>"
        if k == 1:
            return f"Option<{s()}>"
        if k == 2:
            return f"std::collections::HashMap<{s()}, {s()}>"
        if k == 3:
            return f"Result<{s()}, {s()}>"
        if k == 4:
            n = r.randint(1, 4)
            return "(" + "".join(s() + ", " for _ in range(n)) + ")"
        if k == 5:
            return f"[{s()}; {r.choice([0, 1, 2, 31, 1000])}]"
        if k == 6:
            return f"&'static {u()}"
        if k == 7:
            return f"&'static mut {u()}"
        if k == 8:
            return f"*const {u()}"
        if k == 9:
            return f"*mut {u()}"
        if k == 10:
            ret = r.choice(["", " -> " + s()])
            return f"{r.choice(['', 'unsafe '])}{r.choice(['', 'extern ' + chr(34) + 'C' + chr(34) + ' '])}fn({', '.join(s() for _ in range(r.randint(0, 3)))}){ret}"
        if k == 11:
            a = self.lt = self.lt + 1
            return f"for<'a{a}> fn(&'a{a} {s()}) -> &'a{a} {s()}" if r.random() < 0.5 else "for<'a, 'b> fn(&'a u8, &'b mut (u8, &'a str))"
        if k == 12:
            return f"Box<{u()}>"
        if k == 13:
            return f"std::rc::Rc<{u()}>"
        if k == 14:
            return f"m1::Gen<{u()}>"
        if k == 15:
            return f"m1::r#type::Deep<'static, {u()}, {r.choice([0, 5])}>"
        if k == 16:
            return f"m1::ünï::Çé<{s()}>" if self.unicode else f"m1::Gen<{s()}>"
        if k == 17:
            return f"std::cell::RefCell<{s()}>"
        if k == 18:
            return f"std::marker::PhantomData<{u()}>"
        if k == 19:
            return f"Op<{u()}>"
        if k == 20:
            return f"std::pin::Pin<Box<{u()}>>"
        return f"Two<{s()}, {s()}>"

    def any(self, d):
        r = self.r
        k = r.randrange(9)
        s = lambda: self.sized(d - 1)
        if k == 0:
            return "str"
        if k == 1:
            return f"[{s()}]"
        if k == 2:
            return f"(dyn Fn({', '.join(s() for _ in range(r.randint(0, 2)))}){r.choice(['', ' -> ' + s()])}{r.choice(['', ' + Send', ' + Send + Sync'])} + 'static)"
        if k == 3:
            return f"(dyn Tr<{s()}, Out = {s()}> + Send)"
        if k == 4:
            return r.choice(["(dyn Plainly)", "(dyn std::any::Any + Send)", "(dyn std::fmt::Debug + Send + Sync)", "(dyn Iterator<Item = u8>)", "(dyn for<'a> Fn(&'a u8) -> &'a u8)", "std::ffi::CStr", "std::path::Path"])
        return self.sized(d)

    def opaque(self):
        r = self.r
        d = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
        k = r.randrange(11)
        if k == 10:
            x, y = self.sized(d - 1), self.sized(d - 1)
            return r.choice(["&'static str", "std::string::String", "core::task::Context<'static>", f"&'static [{x}]", f"&'static mut [{x}]", f"std::cell::RefCell<{x}>", f"std::boxed::Box<{x}>",
                             f"std::rc::Rc<{x}>", f"std::vec::Vec<{x}>", f"std::collections::BTreeMap<{x}, {y}>", f"std::collections::HashMap<{x}, {y}>", f"std::sync::Arc<{x}>",
                             f"std::sync::Mutex<{x}>", f"std::sync::RwLock<{x}>"])
        if k >= 8:
            return f"safer_ffi::layout::Opaque<{self.sized(d)}>"
        if k < 5:
            return f"Op<{self.any(d)}>"
        if k == 5:
            return f"Two<{self.sized(d)}, {self.sized(d)}>"
        if k == 6:
            return f"Lt<'static, {self.sized(d)}>"
        return f"inner::Within<{self.sized(d)}>"


def source(types):
    o = [PRELUDE]
    for k, t in enumerate(types):
        form = [f"fn f{k}(_p: &{t}) {{}}", f"fn f{k}(_p: &mut {t}) {{}}", f"fn f{k}(_p: repr_c::Box<{t}>) {{}}", f"fn f{k}(_p: Option<&'static {t}>, _n: usize) -> *const {t} {{ core::ptr::null() }}"][k % 4]
        o.append("#[ffi_export]\n" + form)
    o.append("fn __facts(f: &mut Facts) {\n" + "".join(f'    f.ty::<*const {t}>("{k}");\n' for k, t in enumerate(types)) + "}")
    return "\n".join(o) + "\n"


ID = re.compile(r"[^\W\d]\w*\Z")


def examine(tc, types, d):
    """-> (finding or None, evaluations)"""
    if os.path.isdir(d):
        shutil.rmtree(d)
    so, msg = tc.rustc(source(types), d)
    if so is None:
        return ("rustc", " | ".join(l for l in msg.splitlines() if l.startswith("error"))[:600]), 0
    ok, msg = tc.headers(so, d)
    if not ok:
        return ("generation", "header generation failed: " + msg.strip()[-500:]), 1
    facts = open(os.path.join(d, "facts.json")).read()
    h = [open(os.path.join(d, "header." + x), "rb").read() for x in ("h", "cs", "cffi")]
    ok, msg = tc.headers(so, d)
    if not ok or facts != open(os.path.join(d, "facts.json")).read() or h != [open(os.path.join(d, "header." + x), "rb").read() for x in ("h", "cs", "cffi")]:
        return ("unstable", "a second run yields other names"), 2
    n = 0
    for k, f in json.loads(facts).items():
        t = types[int(k[3:])]
        n += 1
        if not ID.match(f["short"]) or f["short"] != f["short2"]:
            return ("name", f"{t}: short name {f['short']!r}"), n
        m = re.match(r"([^\W\d]\w*) const ?\* ?@\Z", f["c"])
        if not m:
            return ("name", f"{t}: C name of a pointer to it {f['c']!r}"), n
        if not re.match(r"[^\W\d]\w*\*?\Z", f["cs"].replace(" ", "").replace("/*const*/", "")):
            return ("name", f"{t}: C# name {f['cs']!r}"), n
    b = progbuild.Built()
    b.dir = d
    for c in (["gcc", "-std=c11", "-x", "c", "-Wall", "-Wextra", "-Werror"], ["clang++", "-std=c++17", "-x", "c++", "-Wall", "-Werror"]):
        n += 1
        e = hdr_c.cc(tc, b, "n.c", '#include "header.h"\n#include "header.h"\n', c)
        if e:
            return ("compile", f"{c[0]}: {e}"), n
    try:
        cs = csharp.CSharp(open(os.path.join(d, "header.cs"), encoding="utf-8", newline="").read())
        for fn in cs.fns.values():
            for _, t, _ in fn["params"]:
                if t.rstrip("*") not in cs.types and t.rstrip("*") not in csharp.BUILTIN:
                    raise csharp.Bad(f"{t} is not declared")
        if cs.dups or len(cs.fns) != len(types):
            raise csharp.Bad(f"{len(cs.fns)} functions of {len(types)}; declared twice: {cs.dups[:3]}")
    except csharp.Bad as e:
        return ("csharp", "C#: " + str(e)), n
    if any("ünï" in t for t in types):  # cffi only accepts ASCII
        return None, n + 1
    try:
        hdr_x.py(tc, b, "none", {})
    except hdr_x.Violation as e:
        return ("python", str(e)), n
    return None, n + 2


def named(tc, b, opts):
    """Names of every type of a generated program (structs, enums, containers, function pointers, ...)"""
    d, n, keys = b.dir, 0, set()
    files = ("facts.json", "header.h", "header.cs", "header.cffi")
    rd = lambda: [open(os.path.join(d, x), "rb").read() for x in files]
    h = rd()
    ok, msg = tc.headers(b.so, d)
    if not ok or h != rd():
        return [("unstable", "a second run yields other names")], {}
    for k, f in b.facts.items():
        if not isinstance(f, dict) or "short" not in f:
            continue
        n += 1
        if not ID.match(f["short"]) or f["short"] != f["short2"]:
            return [("name", f"{k}: short name {f['short']!r}")], {}
        if k.count("[") >= 3:
            keys.add(k)
    for c in (["gcc", "-std=c11", "-x", "c"], ["clang++", "-std=c++17", "-x", "c++"]):
        n += 1
        e = hdr_c.cc(tc, b, "n.c", '#include "header.h"\n', c)
        if e:
            return [("compile", f"{c[0]}: {e}")], {}
    return [], dict(evaluations=n, keys=keys, labels={"generated programs": 1}, sample=None)


def check(ctx):
    r = check_opaque(ctx)
    if r["violations"]:
        return r
    specs = [(progen.generate(ctx.seed * 7919 + 500 + k, dict()), dict(profile="debug", body="stub", seed=k)) for k in range(200 if ctx.thorough else 24)]
    q = progbuild.Sweep(ctx, named, "stub").run(specs, RULE)
    for k in ("evaluations", "distinct_nontrivial"):
        r[k] += q[k]
    for k in ("violations", "samples"):
        r[k] += q[k]
    r["known"].update(q["known"])
    r["labels"].update(q["labels"])
    return r


def check_opaque(ctx):
    tc = progbuild.Toolchain(ctx)
    tc.lib("debug")
    per, n = 25, (960 if ctx.thorough else 160)
    out = dict(evaluations=0, rule=RULE, samples=[], labels={}, known={}, violations=[], assumptions=[])
    sets = []
    for k in range(n):
        g = TyGen(random.Random(f"{ctx.seed}-{k}"), unicode=k % 8 == 7)
        sets.append([g.opaque() for _ in range(per)])
    wd = os.path.join(ctx.work, "p")

    def go(x):
        d = os.path.join(wd, str(x[0]))
        r = examine(tc, x[1], d)
        shutil.rmtree(d, ignore_errors=True)
        return r
    rs = progbuild.parallel(go, list(enumerate(sets)), until=lambda r: r[0] and r[0][0] != "rustc" and r[0][0] not in ctx.known)
    if rs and all(r[0] and r[0][0] == "rustc" for r in rs):
        raise CheckError("no generated program compiles: " + rs[0][0][1])
    keys = set()
    for k, (f, n) in enumerate(rs):
        out["evaluations"] += n
        if f is None:
            keys |= {t for t in sets[k] if sum(t.count(c) for c in "<(*&[") >= 2}
            for t in sets[k]:
                for w in ("std::collections::BTreeMap", "dyn ", "fn(", "&'static", "; ", "for<", "<'", "Two<", "layout::Opaque<", "()"):
                    if w in t:
                        out["labels"]["contains " + w.strip()] = out["labels"].get("contains " + w.strip(), 0) + 1
            out["samples"].append(max(sets[k], key=len)[:300])
        elif f[0] in ctx.known:
            o = out["known"].setdefault(f[0], dict(count=0, msg=f[1]))
            o["count"] += 1
        elif not out["violations"]:
            types, msg = sets[k], f[1]
            # one type that fails, then simpler arguments
            size = len(types)
            while size > 1:
                parts = [types[:len(types) // 2], types[len(types) // 2:]]
                r2 = progbuild.parallel(go, list(enumerate(parts)))
                hit = next((j for j, r in enumerate(r2) if r[0] and r[0][0] == f[0]), None)
                if hit is None:
                    break
                types, msg = parts[hit], r2[hit][0][1]
                size = len(types)
            rp = os.path.join(ctx.replays, f"{ctx.pid}-{ctx.seed}.json")
            with open(rp, "w") as fo:
                json.dump(dict(property=ctx.pid, types=types, message=msg), fo, indent=1)
            out["violations"].append(dict(sig=f[0], msg=f"{msg} [types: {'; '.join(types[:3])}]", replay=rp))
    out["samples"] = out["samples"][:12]
    out["distinct_nontrivial"] = len(keys)
    return out


def replay(ctx, path):
    j = json.load(open(path))
    if "items" in j:
        return progbuild.Sweep(ctx, named, "stub").replay(path)
    f, _ = examine(progbuild.Toolchain(ctx), j["types"], os.path.join(ctx.work, "r"))
    print(f or "holds")
    return 1 if f and f[0] not in ctx.known else 0
