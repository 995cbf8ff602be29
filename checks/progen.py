"""Generated programs: random exported items for safer_ffi, as a specification (JSON), rendered as Rust source.

A type is a list [tag, ...]; see `rs`. Types are built from earlier items only, so that removing an item
together with its users leaves a program (used by the shrinker).
"""
import re, json, random

INTS = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"]
PRIMS = INTS + ["bool", "f32", "f64"]
C_PRIM = {**{f"{s}{n}": f"{'u' if s == 'u' else ''}int{n}_t" for s in "ui" for n in (8, 16, 32, 64)},
          "usize": "size_t", "isize": "ssize_t", "bool": "bool", "f32": "float", "f64": "double", "cchar": "char"}
SIZE = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "usize": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "isize": 8, "bool": 1,
        "f32": 4, "f64": 8, "cchar": 1}
PTR_TO = ("cptr", "mptr", "nn", "nnref", "nnmut", "nnown", "ref", "mut", "box", "out")
CONST_PTR = ("cptr", "nnref", "ref")
SLICES = ("sref", "smut", "sbox", "sraw", "vec")
ARRAY_LENS = list(range(1, 33)) + [40, 48, 50, 60, 64, 70, 75, 80, 90, 96, 100, 125, 128, 192, 200, 250, 256, 300, 400, 500,
                                   512, 600, 700, 750, 800, 900, 1000, 1024]


def key(t):
    return json.dumps(t)


def rng_of(enum_repr):
    r = {"C": "i32"}.get(enum_repr, enum_repr)
    b = 8 * SIZE[r]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if r[0] == "i" else (0, (1 << b) - 1)

# types of the standard library that are opaque for C (see progrt)
STD_OPAQUE = ["Vec<progrt::Secret>", "std::string::String", "std::rc::Rc<progrt::Secret>", "std::sync::Arc<progrt::Secret>", "std::boxed::Box<progrt::Secret>",
              "std::cell::RefCell<progrt::Secret>", "std::sync::Mutex<progrt::Secret>", "std::sync::RwLock<Vec<progrt::Secret>>",
              "std::collections::BTreeMap<u32, progrt::Secret>", "std::collections::HashMap<std::string::String, Option<progrt::Secret>>",
              "safer_ffi::layout::Opaque<progrt::Secret>", "safer_ffi::layout::Opaque<(progrt::Secret, [u8; 3])>", "&'static str", "&'static [progrt::Secret]"]


class Program:
    def __init__(self, items):
        self.items = items
        self.by_name = {i["name"]: i for i in items}
        for i in items:
            if i.get("tuple"):
                i["fields"] = [[f"_{k}"] + f[1:] for k, f in enumerate(i["fields"])]

    def to_json(self):
        return self.items

    # ---------------------------------------------------------------- types
    def rs(self, t, args=()):
        """Rust source of the type."""
        g = t[0]
        if g in PRIMS:
            return g
        r = lambda x: self.rs(x, args)
        if g == "par":
            return f"P{t[1]}" if args == () else self.rs(args[t[1]])
        if g == "unit":
            return "()"
        if g == "void":
            return "::core::ffi::c_void"
        if g == "cchar":
            return "safer_ffi::c_char"
        if g in ("cptr", "mptr"):
            return f"*{'const' if g == 'cptr' else 'mut'} {self.pointee_rs(t[1], args)}"
        if g == "nn":
            return f"::core::ptr::NonNull<{self.pointee_rs(t[1], args)}>"
        if g in ("nnref", "nnmut", "nnown"):
            return f"safer_ffi::ptr::{dict(nnref='NonNullRef', nnmut='NonNullMut', nnown='NonNullOwned')[g]}<{self.pointee_rs(t[1], args)}>"
        if g in ("ref", "mut"):
            return f"&'static {'mut ' if g == 'mut' else ''}{self.pointee_rs(t[1], args)}"
        if g == "out":
            return f"Out<'static, {r(t[1])}>"
        if g == "box":
            return f"repr_c::Box<{self.pointee_rs(t[1], args)}>"
        if g == "opt":
            return f"Option<{r(t[1])}>"
        if g == "tag":
            return f"safer_ffi::option::TaggedOption<{r(t[1])}>"
        if g == "sref":
            return f"c_slice::Ref<'static, {r(t[1])}>"
        if g == "smut":
            return f"c_slice::Mut<'static, {r(t[1])}>"
        if g == "sbox":
            return f"c_slice::Box<{r(t[1])}>"
        if g == "sraw":
            return f"c_slice::Raw<{r(t[1])}>"
        if g == "vec":
            return f"repr_c::Vec<{r(t[1])}>"
        if g == "string":
            return "repr_c::String"
        if g in ("strref", "strbox", "cref", "cbox", "craw"):
            return {"strref": "str::Ref<'static>", "strbox": "str::Box", "cref": "char_p::Ref<'static>", "cbox": "char_p::Box",
                    "craw": "char_p::Raw"}[g]
        if g == "arr":
            return f"[{r(t[1])}; {t[2]}]"
        if g == "tup":
            return f"safer_ffi::tuple::Tuple{len(t[1])}<{', '.join(map(r, t[1]))}>"
        if g == "fn":
            return f"{'unsafe ' if t[1] else ''}extern \"C\" fn({', '.join(map(r, t[3]))}) -> {r(t[2])}"
        if g == "clo":
            name = {"Box": "BoxDynFnMut", "Arc": "ArcDynFn", "Ref": "RefDynFnMut"}[t[1]]
            return f"safer_ffi::closure::{name}{len(t[3])}<{', '.join((['%sstatic' % chr(39)] if t[1] == 'Ref' else []) + [r(x) for x in [t[2]] + t[3]])}>"
        if g == "ph":
            return f"::core::marker::PhantomData<{r(t[1])}>"
        if g in ("st", "nt", "op"):
            return t[1] + (f"<{', '.join(map(r, t[2]))}>" if t[2] else "")
        if g == "en":
            return t[1]
        if g == "vp":
            return f"VirtualPtr<dyn {t[1]}{' + Send + Sync' if self.by_name[t[1]].get('sync') else ''}>"
        raise KeyError(g)

    def pointee_rs(self, t, args):
        return self.rs(t, args)

    def subst(self, t, args):
        if not isinstance(t, list):
            return t
        if t and t[0] == "par":
            return args[t[1]]
        return [self.subst(x, args) for x in t]

    def fields(self, t):
        """(name, type) in order, of a type that is a struct for C; None for others. Zero-sized ones excluded."""
        g = t[0]
        if g == "st":
            i = self.by_name[t[1]]
            return [(f[0], self.subst(f[1], t[2])) for f in i["fields"] if f[1][0] != "ph"]
        if g == "tup":
            return [(f"_{k}", x) for k, x in enumerate(t[1])]
        if g == "tag":
            return [("_0", ["bool"]), ("_1", t[1])]
        if g in ("sref", "smut", "sbox", "sraw"):
            return [("ptr", ["cptr" if g == "sref" else "mptr", t[1]]), ("len", ["usize"])]
        if g == "vec":
            return [("ptr", ["mptr", t[1]]), ("len", ["usize"]), ("cap", ["usize"])]
        if g == "string":
            return self.fields(["vec", ["u8"]])
        if g in ("strref", "strbox"):
            return self.fields(["sref" if g == "strref" else "sbox", ["u8"]])
        if g == "opt":
            return self.fields(t[1])
        if g == "nt":
            return self.fields(self.inner(t))
        if g == "arr":
            return [("idx", t)]
        if g == "clo":
            env = ["mptr", ["void"]]
            un = ["fn", 0, ["unit"], [env]]
            fs = [("env_ptr", env), ("call", ["fn", 0, t[2], [env] + t[3]])]
            return fs + {"Box": [("free", un)], "Arc": [("release", un), ("retain", un)], "Ref": []}[t[1]]
        if g == "vp":
            return [("ptr", ["mptr", ["erased"]]), ("vtable", ["vt", t[1]])]
        if g == "vt":
            i = self.by_name[t[1]]
            fs = [("release_vptr", ["fn", 0, ["unit"], [["mptr", ["erased"]]]])]
            if i.get("clone"):
                fs.append(("retain_vptr", ["fn", 0, ["mptr", ["erased"]], [["cptr", ["erased"]]]]))
            for m in i["methods"]:
                fs.append((m["name"], ["fn", 0, m["ret"], [["mptr" if m["mut"] else "cptr", ["erased"]]] + [a[1] for a in m["args"]]]))
            return fs
        return None

    def inner(self, t):
        """Of a transparent newtype."""
        return self.subst(self.by_name[t[1]]["inner"], t[2])

    def parts(self, t):
        g = t[0]
        if g in PTR_TO or g in SLICES or g in ("opt", "tag", "ph", "arr"):
            return [t[1]]
        if g == "tup":
            return list(t[1])
        if g in ("fn", "clo"):
            return [t[2]] + list(t[3])
        if g == "st":
            return [x for _, x in self.fields(t)]
        if g == "nt":
            return [self.inner(t)]
        if g == "vp":
            return [y for m in self.by_name[t[1]]["methods"] for y in [m["ret"]] + [a[1] for a in m["args"]]]
        return []

    def closure_of(self, ts):
        """The types and all of their parts, parts first; by-value ones only are usable with `Facts::ty`."""
        seen, out = set(), []

        def go(t):
            k = key(t)
            if k in seen:
                return
            seen.add(k)
            for p in self.parts(t):
                go(p)
            out.append(t)
        for t in ts:
            go(t)
        return out

    def used_types(self):
        ts = []
        for i in self.items:
            if i["kind"] == "fn":
                ts += [a[1] for a in i["args"]] + [i["ret"]]
            elif i.get("export"):
                ts.append(self.type_of(i))
        return self.closure_of(ts)

    def type_of(self, i):
        """The type that an item without generics defines"""
        return ["en", i["name"]] if i["kind"] == "enum" else [{"struct": "st", "newtype": "nt", "opaque": "op"}[i["kind"]], i["name"], []]

    def mentioned(self, t, out):
        if isinstance(t, list):
            if len(t) > 1 and t[0] in ("st", "nt", "op", "en", "vp") and isinstance(t[1], str):
                out.add(t[1])
            for x in t:
                self.mentioned(x, out)

    def uses(self, item):
        out = set()
        k = item["kind"]
        if k == "fn":
            for a in item["args"]:
                self.mentioned(a[1], out)
            self.mentioned(item["ret"], out)
        elif k == "struct":
            for f in item["fields"]:
                self.mentioned(f[1], out)
        elif k == "newtype":
            self.mentioned(item["inner"], out)
        elif k == "trait":
            for m in item["methods"]:
                for a in m["args"]:
                    self.mentioned(a[1], out)
                self.mentioned(m["ret"], out)
        return out

    # ---------------------------------------------------------------- C declarators, independently of the library
    def cdecl(self, t, d, cname):
        """C declaration of `d`; `cname(t)` gives the names of aggregates that the library chooses."""
        g = t[0]
        sp = " " if d else ""
        if g in C_PRIM:
            return C_PRIM[g] + sp + d
        if g in ("unit", "void"):
            return "void" + sp + d
        if g == "erased":
            return "Erased_t" + sp + d
        if g in PTR_TO:
            return self.cdecl(t[1], ("const *" if g in CONST_PTR else "*") + d, cname)
        if g == "fn":
            a = ", ".join(self.cdecl(x, "", cname) for x in t[3]) or "void"
            return self.cdecl(t[2], f"(*{d})({a})", cname)
        if g in ("cref", "craw"):
            return f"char const *{d}"
        if g == "cbox":
            return f"char *{d}"
        if g == "opt":
            return self.cdecl(t[1], d, cname)
        if g == "nt":
            return self.cdecl(self.inner(t), d, cname)
        if g == "en":
            return f"{self.cname_of_item(t[1])}_t{sp}{d}"
        if g == "op" or g == "vt":
            return cname(t) + sp + d
        if g == "st" and not t[2]:
            return f"{self.cname_of_item(t[1])}_t{sp}{d}"
        return cname(t) + sp + d

    def shape(self, t):
        """The type as seen by C"""
        g, r = t[0], self.shape
        if g in PTR_TO:
            return ["cp" if g in CONST_PTR else "p", r(t[1])]
        if g in ("opt", "ph"):
            return r(t[1])
        if g == "nt":
            return r(self.inner(t))
        if g in ("unit", "void"):
            return "void"
        if g in ("strref", "strbox", "string"):
            return r([{"strref": "sref", "strbox": "sbox", "string": "vec"}[g], ["u8"]])
        if g in ("cref", "craw", "cbox"):
            return ["p" if g == "cbox" else "cp", "cchar"]
        if g in ("tag", "arr") or g in SLICES:
            return [g, r(t[1])] + t[2:]
        if g == "tup":
            return [g] + [r(x) for x in t[1]]
        if g in ("fn", "clo"):
            return [g, t[1] if g == "clo" else 0, r(t[2])] + [r(x) for x in t[3]]
        if g in ("st", "op"):
            return [g, t[1]] + [r(x) for x in t[2]]
        return t if len(t) > 1 else g

    def joined_name(self, t):
        """A name of the type made of those of its components, the way that C names usually are. Two types of one such
        name may well be called the same by the library (a known finding: see `ambiguous`)."""
        t = self.shape(t)

        def go(t):
            if isinstance(t, str):
                return C_PRIM.get(t, t).removesuffix("_t")
            g, r = t[0], [go(x) for x in t[1:] if isinstance(x, (str, list))]
            if g in ("p", "cp"):
                return r[0] + ("_ptr" if g == "p" else "_const_ptr")
            if g == "arr":
                return f"{r[0]}_{t[2]}_array"
            if g == "fn":
                return "_".join(r + ["fptr"])
            if g == "clo":
                return "_".join([{"Box": "BoxDynFnMut", "Arc": "ArcDynFn", "Ref": "RefDynFnMut"}[t[1]] + str(len(t) - 3)] + [go(x) for x in t[2:]])
            if g in ("st", "op", "en"):
                return "_".join([self.cname_of_item(t[1])] + r[1:])
            if g in ("vp", "vt"):
                return "VirtualPtr_" + t[1] if g == "vp" else t[1]
            pre = dict(tup=f"Tuple{len(r)}", sref="slice_ref", smut="slice_mut", sbox="slice_boxed", sraw="slice_raw", vec="Vec", tag="TaggedOption")[g]
            return "_".join([pre] + r)
        return go(t)

    def ambiguous(self, ts, names):
        """Adds the names of the types and of their parts to `names`; -> whether one is that of another type"""
        new = {}
        for t in self.closure_of(ts):
            n, s = self.joined_name(t), self.shape(t)
            if s[0] in ("p", "cp"):
                continue  # these are spelled, not named
            if names.get(n, s) != s or new.get(n, s) != s:
                return True
            new[n] = s
        names.update(new)
        return False

    def cname_of_item(self, name):
        i = self.by_name[name]
        return i.get("rename") or name.replace("r#", "")

    # ---------------------------------------------------------------- Rust source
    def rust(self, body="transport", extra=""):
        o = ["#![allow(warnings)]",
             "use progrt::safer_ffi;", "use safer_ffi::prelude::*;", "use progrt::{V, Rng, Facts};", "progrt::exports!();"]
        for i in self.items:
            o.append(getattr(self, "rs_" + i["kind"])(i, body))
        o.append(self.rs_facts())
        o.append(extra)
        return "\n".join(o) + "\n"

    def exported(self, i):
        return "#[ffi_export]\n" if i.get("export") else ""

    def docs(self, i, ind=""):
        return "".join(f"{ind}#[doc = {rstr(d)}]\n" for d in i.get("docs", ()))

    def rs_generics(self, n, bound):
        if not n:
            return "", "", ""
        ps = [f"P{k}" for k in range(n)]
        return f"<{', '.join(ps)}>", f" where {', '.join(p + ': ReprC + ' + bound for p in ps)}", f"<{', '.join(p + ': ' + bound + ' + ReprC' for p in ps)}>"

    @staticmethod
    def rs_field(i, n):
        """Rust's name for the field that C calls `n`"""
        return n[1:] if i.get("tuple") else n

    def rs_struct(self, i, body):
        n = i.get("generics", 0)
        gen, where, _ = self.rs_generics(n, "'static")
        _, vwhere, _ = self.rs_generics(n, "V")
        fs = i["fields"]
        name = i["name"]
        rename = f'(rename = "{i["rename"]}")' if i.get("rename") else ""
        s = f"{self.docs(i)}{self.exported(i)}#[derive_ReprC{rename}]\n#[repr(C)]\npub struct {name}{gen}"
        s += " (\n" if i.get("tuple") else f"{where} {{\n"
        for f in fs:
            s += self.docs(dict(docs=f[2] if len(f) > 2 else ()), "    ") + f"    pub {'' if i.get('tuple') else f[0] + ': '}{self.rs(f[1])},\n"
        s += f"){where};\n" if i.get("tuple") else "}\n"
        fs = [[self.rs_field(i, f[0])] + f[1:] for f in fs]
        ser = "o.push('{'); " + " ".join(f"V::ser(&self.{f[0]}, o); o.push(',');" for f in fs if f[1][0] != "ph") + " o.push('}')"
        s += f"impl{gen} V for {name}{gen}{vwhere} {{\n"
        s += f"    fn gen(r: &mut Rng) -> Self {{ {name} {{ {', '.join(f'{f[0]}: V::gen(r)' for f in fs)} }} }}\n"
        s += f"    fn ser(&self, o: &mut String) {{ {ser} }}\n"
        s += f"    fn exercise(&mut self) {{ {' '.join(f'V::exercise(&mut self.{f[0]});' for f in fs)} }}\n}}\n"
        return s

    def rs_newtype(self, i, body):
        n = i.get("generics", 0)
        gen, where, _ = self.rs_generics(n, "'static")
        _, vwhere, _ = self.rs_generics(n, "V")
        name = i["name"]
        rename = f'(rename = "{i["rename"]}")' if i.get("rename") else ""
        inner = self.rs(i["inner"])
        ph = i.get("phantom")  # 1: a marker after the field, 2, 3: before it, 4: both
        ty = {1: ["pub @", "pub ::core::marker::PhantomData<u64>"], 2: ["pub ::core::marker::PhantomData<u64>", "pub @"], 3: ["()", "pub @"],
              4: ["std::marker::PhantomData<(u8, u64)>", "pub @", "()"]}.get(ph, ["pub @"])
        at = next(k for k, x in enumerate(ty) if "@" in x)
        mk = ", ".join("V::gen(r)" if "@" in x else "()" if x == "()" else "::core::marker::PhantomData" for x in ty)
        s = f"{self.docs(i)}{self.exported(i)}#[derive_ReprC{rename}]\n#[repr(transparent)]\npub struct {name}{gen}({', '.join(ty).replace('@', inner)}){where};\n"
        s += (f"impl{gen} V for {name}{gen}{vwhere} {{ fn gen(r: &mut Rng) -> Self {{ {name}({mk}) }} "
              f"fn ser(&self, o: &mut String) {{ V::ser(&self.{at}, o) }} fn exercise(&mut self) {{ V::exercise(&mut self.{at}) }} }}\n")
        return s

    def rs_enum(self, i, body):
        name = i["name"]
        rename = f'(rename = "{i["rename"]}")' if i.get("rename") else ""
        s = f"{self.docs(i)}{self.exported(i)}#[derive_ReprC{rename}]\n#[repr({i['repr']})]\n#[derive(Clone, Copy)]\npub enum {name} {{\n"
        for v in i["variants"]:
            s += self.docs(dict(docs=v[2] if len(v) > 2 else ()), "    ")
            s += f"    {v[0]}{'' if v[1] is None else ' = ' + str(v[1])},\n"
        s += "}\n"
        s += f"impl V for {name} {{ fn gen(r: &mut Rng) -> Self {{ [{', '.join(name + '::' + v[0] for v in i['variants'])}][r.below({len(i['variants'])}) as usize] }} "
        ty = "i32" if i["repr"] == "C" else i["repr"]
        s += f"fn ser(&self, o: &mut String) {{ use std::fmt::Write; write!(o, \"{{}}\", unsafe {{ *(self as *const Self as *const {ty}) }}).unwrap() }} }}\n"
        return s

    def rs_opaque(self, i, body):
        if i.get("std"):
            return f"pub type {i['name']} = {i['std']};\n"
        n = i.get("generics", 0)
        gen = f"<{', '.join(f'P{k}' for k in range(n))}>" if n else ""
        name = i["name"]
        s = f"{self.docs(i)}{self.exported(i)}#[derive_ReprC]\n#[repr(opaque)]\npub struct {name}{gen} {{ s: progrt::Secret"
        for k in range(n):
            s += f", x{k}: Option<P{k}>"
        s += " }\n"
        b = f"<{', '.join(f'P{k}: {chr(39)}static' for k in range(n))}>" if n else ""
        s += f"impl{b} {name}{gen} {{ fn mk() -> Self {{ {name} {{ s: progrt::Secret::new(){''.join(f', x{k}: None' for k in range(n))} }} }} }}\n"
        # its address identifies it
        s += (f"impl{b} V for {name}{gen} {{ fn gen(_: &mut Rng) -> Self {{ Self::mk() }} "
              "fn ser(&self, o: &mut String) { use std::fmt::Write; self.s.check(); write!(o, \"o{:x}\", self as *const Self as usize).unwrap() } }\n")
        return s

    def rs_trait(self, i, body):
        name = i["name"]
        s = f"{self.docs(i)}#[derive_ReprC(dyn{', Clone' if i.get('clone') else ''})]\npub trait {name} {{\n"
        for m in i["methods"]:
            a = "".join(f", {x[0]}: {self.rs(x[1])}" for x in m["args"])
            s += self.docs(m, "    ") + f"    fn {m['name']}(&{'mut ' if m['mut'] else ''}self{a}) -> {self.rs(m['ret'])};\n"
        s += "}\n"
        # an implementor, and values of the virtual pointer
        dyn = self.rs(["vp", name])
        ser_call = lambda m: f'let mut s = String::from("{name}.{m["name"]}("); ' + " ".join(f"V::ser(&{a[0]}, &mut s); s.push(',');" for a in m["args"])
        s += f"pub struct Impl{name}(progrt::Env);\nimpl {name} for Impl{name} {{\n"
        for m in i["methods"]:
            a = "".join(f", mut {x[0]}: {self.rs(x[1])}" for x in m["args"])
            s += (f"    fn {m['name']}(&{'mut ' if m['mut'] else ''}self{a}) -> {self.rs(m['ret'])} {{ {ser_call(m)} progrt::recv(s); "
                  + " ".join(f"progrt::exercise_all(&mut {x[0]});" for x in m["args"])
                  + f" let r: {self.rs(m['ret'])} = progrt::rng(V::gen); progrt::sent(progrt::s1(\"=\", &r)); r }}\n")
        s += "}\n"
        sync = i.get("clone")
        s += (f"impl progrt::DynV for dyn {name} {{\n    fn gen() -> VirtualPtr<Self> {{ "
              + (f"std::rc::Rc::new(Impl{name}(progrt::Env::new())).into()" if i.get("clone") else f"std::boxed::Box::new(Impl{name}(progrt::Env::new())).into()")
              + " }\n    fn exercise(this: &mut VirtualPtr<Self>) {\n")
        if i.get("clone"):
            s += "        let c = this.clone();\n"
        for m in i["methods"]:
            s += "        { " + " ".join(f"let {x[0]}: {self.rs(x[1])} = progrt::rng(V::gen);" for x in m["args"])
            s += f" {ser_call(m)} progrt::sent(s); let mut r = this.{m['name']}({', '.join(x[0] for x in m['args'])}); progrt::recv(progrt::s1(\"=\", &r)); progrt::exercise_all(&mut r); }}\n"
        if i.get("clone"):
            s += "        *this = c;\n"
        s += "    }\n}\n"
        return s

    def rs_raw(self, i, body):
        """Source that only H04 knows about"""
        return i["rs"] + "\n"

    def rs_const(self, i, body):
        at = "(untyped)" if i.get("untyped") else ""
        return f"{self.docs(i)}#[ffi_export{at}]\npub const {i['name']}: {i['ty']} = {i['rs']};\n"

    def pattern(self, a):
        """How Rust takes the argument: '' | 'mut' | 'ref' | 'refmut' | 'open' (destructured) | 'lt' (with a lifetime parameter)"""
        k = a[2] if len(a) > 2 else ""
        t = a[1]
        if k == "lt" and t[0] not in ("ref", "mut", "sref", "smut", "strref", "cref"):
            return ""
        if k == "open":
            if t[0] == "st" and self.by_name[t[1]]["fields"] and not any(f[1][0] == "ph" for f in self.by_name[t[1]]["fields"]) or t[0] == "tup" \
                    or t[0] == "arr" and t[2] <= 12 or t[0] == "nt" and not self.by_name[t[1]].get("phantom"):
                return k
            return ""
        if k == "ref" and t[0] in ("out", "mut"):
            return ""
        return k

    def arg_name(self, i, n):
        """The name of the argument in the headers: Rust's, or `__arg_<n>` where Rust's is a pattern or looks like that"""
        a = i["args"][n]
        name = a[0].replace("r#", "")
        return f"__arg_{n}" if self.pattern(a) == "open" or name.startswith("__arg_") else name

    def rs_pattern(self, a):
        """-> pattern, type, and the statements that make `a[0]` the value"""
        k, x, t = self.pattern(a), a[0], self.rs(a[1])
        v = x.replace("r#", "")
        if k == "open":
            g = a[1]
            if g[0] == "arr":
                vs = [f"{v}__{n}" for n in range(g[2])]
                return f"[{', '.join(vs)}]", t, f"let mut {x}: {t} = [{', '.join(vs)}];"
            if g[0] == "nt":
                return f"{g[1]}({v}__0)", t, f"let mut {x}: {t} = {g[1]}({v}__0);"
            names = [self.rs_field(self.by_name[g[1]], f[0]) for f in self.by_name[g[1]]["fields"]] if g[0] == "st" else [f"_{n}" for n in range(len(g[1]))]
            con = g[1] if g[0] == "st" else f"safer_ffi::tuple::Tuple{len(g[1])}"
            inner = ", ".join(f"{f}: {v}__{n}" for n, f in enumerate(names))
            return f"{con} {{ {inner} }}", t, f"let mut {x}: {t} = {con} {{ {inner} }};"
        if k == "lt":
            u = re.sub(r"^(&|c_slice::Ref<|c_slice::Mut<|str::Ref<|char_p::Ref<)'static", r"\1'lt", t, 1)
            return x, u, f"let mut {x}: {t} = unsafe {{ ::core::mem::transmute::<{u}, _>({x}) }};"
        if k == "ref":
            return f"ref mut {x}", t, ""
        return ("mut " if k == "mut" else "") + x, t, f"let mut {x} = {x};"

    def rs_fn(self, i, body):
        name = i["name"]
        asy = i.get("async")
        at = [f'rename = "{i["rename"]}"'] if i.get("rename") else []
        if asy:
            at.insert(asy % (len(at) + 1), f"executor = {EXECUTORS[asy % len(EXECUTORS)]}")
        at = f"({', '.join(at)})" if at else ""
        exp = self.export_name(i)
        pats = [self.rs_pattern(a) for a in i["args"]]
        args = ", ".join(f"{p}: {t}" for p, t, _ in pats)
        ret = self.rs(i["ret"])
        rett = "" if i["ret"] == ["unit"] and i.get("noret") else f" -> {ret}"
        gen, where = "", ""
        if any(self.pattern(a) == "lt" for a in i["args"]):
            gen, where = ("<'lt>", "") if len(name) % 3 else ("<'lt, 'other: 'lt>", " where 'lt: 'lt")
        quals = ("async " if asy else "") + ("unsafe " if i.get("unsafe") else "") + ('extern "C" ' if i.get("abi") else "")
        s = f"{self.docs(i)}#[ffi_export{at}]\n{'pub ' if i.get('pub') else ''}{quals}fn {name}{gen}({args}){rett}{where} {{\n"
        if body != "transport":
            if asy:
                return s + f"    ffi_await!(async {{ let r: {ret} = unimplemented!(); r }})\n}}\n"
            return s + "    unimplemented!()\n}\n"
        for a, (p, t, st) in zip(i["args"], pats):
            s += f"    {st}\n"
        s += f'    let mut s = String::from("{exp}(");\n'
        deref = lambda a: "*" if self.pattern(a) == "ref" else ""
        for a in i["args"]:
            if a[1][0] != "out":
                s += f"    V::ser(&{deref(a)}{a[0]}, &mut s); s.push(',');\n"
        s += "    progrt::recv(s);\n"
        if asy:
            s += f"    ffi_await!{'{' if asy % 2 else '('} async move {{\n    progrt::Yield({asy % 4}).await;\n"
        for a in i["args"]:
            if a[1][0] != "out":
                s += f"    progrt::exercise_all(&mut {deref(a)}{a[0]});\n"
        s += f'    let mut s = String::from("{exp}=");\n'
        s += f"    let r: {ret} = progrt::rng(V::gen);\n    V::ser(&r, &mut s);\n"
        if asy:
            s += f"    progrt::Yield({asy // 4 % 3}).await;\n"
        for a in i["args"]:
            if a[1][0] == "out":
                s += f"    {{ let v: {self.rs(a[1][1])} = progrt::rng(V::gen); s.push(';'); V::ser(&v, &mut s); {a[0]}.write(v); }}\n"
            elif a[1][0] == "mut" and a[1][1][0] != "op":
                s += f"    *{a[0]} = progrt::rng(V::gen); s.push(';'); V::ser(&{a[0]}, &mut s);\n"
        s += "    progrt::sent(s);\n    r\n"
        if asy:
            s += "    }" + ("}" if asy % 2 else ")") + "\n"
        return s + "}\n"

    def export_name(self, i):
        return i.get("rename") or i["name"].replace("r#", "")

    def byvalue(self, t):
        return t[0] not in ("op", "void", "erased", "vt", "unit", "ph", "par")

    def rs_facts(self):
        s = "fn __facts(f: &mut Facts) {\n"
        for n, t in enumerate(self.used_types()):
            if not self.byvalue(t):
                if t[0] == "op":
                    # via a pointer to it
                    s += f"    f.ty::<{self.rs(['cptr', t])}>({rstr('*' + key(t))});\n"
                continue
            s += f"    f.ty::<{self.rs(t)}>({rstr(key(t))});\n"
            if t[0] in ("st", "tup"):
                fs = self.fields(t)
                allf = [f[0] for f in self.by_name[t[1]]["fields"]] if t[0] == "st" else [f[0] for f in fs]
                rn = lambda n: self.rs_field(self.by_name[t[1]], n) if t[0] == "st" else n
                v = ", ".join(f"({rstr(n)}, unsafe {{ ::core::ptr::addr_of!((*p).{rn(n)}) as usize }}, progrt::size_of_ptr(unsafe {{ ::core::ptr::addr_of!((*p).{rn(n)}) }}))" for n in allf)
                s += f"    f.fields::<{self.rs(t)}>({rstr(key(t))}, |p| vec![{v}]);\n"
        for i in self.items:
            if i["kind"] == "const":
                fmt = {"f32": "{:x}\", %s.to_bits()", "f64": "{:x}\", %s.to_bits()", "bool": "{}\", %s as u8",
                       "&str": "{}\", progrt::hexs(%s)"}.get(i["ty"], "{}\", %s")
                s += f"    f.value({rstr(i['name'])}, format!(\"{fmt % i['name']}));\n"
            if i["kind"] == "enum":
                ty = "i32" if i["repr"] == "C" else i["repr"]
                for v in i["variants"]:
                    s += f"    f.value({rstr(i['name'] + '::' + v[0])}, format!(\"{{}}\", {i['name']}::{v[0]} as {ty}));\n"
        return s + "}\n"


def rstr(s):
    o = '"'
    for c in s:
        if c in '"\\':
            o += "\\" + c
        elif c == "\n":
            o += "\\n"
        elif c == "\r":
            o += "\\r"
        elif c == "\t":
            o += "\\t"
        elif ord(c) < 32 or ord(c) == 127:
            o += "\\x%02x" % ord(c)
        else:
            o += c
    return o + '"'


# -------------------------------------------------------------------- generation
SYL = "ba ce di fo gu ha je ki lo mu ne pi ro su ta ve wi xo yu za".split()
RAW_NAMES = ["r#match", "r#fn", "r#impl", "r#loop", "r#move", "r#mod", "r#use", "r#where", "r#let", "r#pub", "r#trait",
             "r#type", "r#dyn", "r#unsafe_", "r#mut"]
DOC_BITS = ["hello", "*/ int bad_1; /*", "/* open", "*/", "//", "\\", "#define X_ 1", "#endif", "\"quoted", "'", "\n", "\n\n", "two\nlines",
            "??/", "</summary>", "<b>", "&amp;", "]]>", "é∀", "`code`", "a \\\n b", "#if 0", "{", "}", ";", "@param x", "\t", "%s", "{}", "\r\n", "*/ enum { a_b_c }; /**",
            "end\\", "/", "*", "**/", "/**/", "///", "````", "x*//*y", "\r", "* /", "*\n/", "/\n*"]


EXECUTORS = ["progrt::block_on", "::progrt::exec::block_on", "progrt::block_on::<_>", "(|f| progrt::block_on(f))"]


class Gen:
    def __init__(self, rnd, bias=None):
        self.r = rnd
        self.b = dict(structs=4, newtypes=2, enums=2, opaques=2, traits=1, consts=3, fns=8, docs=0.35, maxdepth=3, raw=0.06,
                      callables=1.0, asyncs=0.12, owned=1.0, hostile_docs=True)
        self.b.update(bias or {})
        self.items = []
        self.names = set()
        self.p = Program(self.items)

    def name(self, camel=False):
        while True:
            n = "".join(self.r.choice(SYL) for _ in range(self.r.randint(2, 3)))
            if camel:
                n = n.capitalize()
                if self.r.random() < 0.25:
                    n += self.r.choice(SYL).capitalize()
                if self.r.random() < 0.1:
                    n += str(self.r.randint(1, 9))
            elif self.r.random() < 0.3:
                n += "_" + self.r.choice(SYL + ["1", "2x", "_"])
            if n.lower() not in self.names:
                self.names.add(n.lower())
                return n

    def field_name(self, used):
        while True:
            if self.r.random() < self.b["raw"]:
                n = self.r.choice(RAW_NAMES)
            else:
                n = "".join(self.r.choice(SYL) for _ in range(self.r.randint(1, 2))) + self.r.choice(["", "", "", "_", "1", "_x"])
            if n not in used and n not in ("do",):
                used.add(n)
                return n

    def docs(self):
        if self.r.random() >= self.b["docs"]:
            return []
        k = self.r.choice([1, 1, 2, 3, 5])
        if not self.b["hostile_docs"]:
            return ["some words"] * k
        return [" ".join(self.r.choice(DOC_BITS) for _ in range(self.r.randint(0, 3))) for _ in range(k)]

    def named(self, kinds, pred=lambda i: True):
        return [i for i in self.items if i["kind"] in kinds and pred(i)]

    def inst(self, i, d):
        tag = {"struct": "st", "newtype": "nt", "enum": "en", "opaque": "op", "trait": "vp"}[i["kind"]]
        if tag in ("en", "vp"):
            return [tag, i["name"]]
        return [tag, i["name"], [self.ty(d - 1, plain=True) for _ in range(i.get("generics", 0))]]

    def pointee(self, d):
        ops = self.named(["opaque"])
        if ops and self.r.random() < 0.3:
            return self.inst(self.r.choice(ops), d)
        return self.ty(d)

    def is_copy_opt(self, t):
        """Whether Option<t> is supported (the library knows a niche)."""
        g = t[0]
        if g in ("ref", "mut", "box", "nn", "nnref", "nnmut", "nnown", "sref", "smut", "sbox", "sraw", "vec", "string", "strref", "strbox",
                 "cref", "cbox", "craw", "fn", "vp"):
            return True
        if g == "clo":
            return t[1] == "Box"
        if g == "nt":
            i = self.p.by_name[t[1]]
            return not i.get("phantom") and i["inner"][0] != "par" and self.is_copy_opt(self.p.inner(t))
        return False

    def ty(self, d, plain=False):
        """A by-value type. `plain`: usable as a type argument (no trait restrictions beyond V + ReprC)."""
        r = self.r
        w = []
        add = lambda k, f: w.append((k, f))
        add(6, lambda: [r.choice(PRIMS)])
        add(0.3, lambda: ["cchar"])
        users = self.named(["struct", "newtype", "enum"])
        if users:
            add(5, lambda: self.inst(r.choice(users), d))
        if self.b["owned"]:
            add(0.8, lambda: [r.choice(["string", "strref", "strbox", "cref", "cbox", "craw"])])
        if d > 0:
            add(1.5, lambda: [r.choice(["ref", "mut"]), self.pointee(d - 1)])
            add(1, lambda: [r.choice(["cptr", "mptr", "nn", "nnref", "nnmut", "nnown"]), r.choice([self.pointee, self.pointee, self.pointee, lambda d: ["void"]])(d - 1)])
            add(1, lambda: ["box", self.pointee(d - 1)])
            add(2, lambda: ["arr", self.ty(d - 1), r.choice([1, 2, 3, 4, 5, 7, 8]) if r.random() < 0.8 else r.choice(ARRAY_LENS)])
            add(1.5, lambda: ["tup", [self.ty(d - 1) for _ in range(r.randint(1, 6))]])
            add(0.8, lambda: ["tag", self.ty(d - 1)])
            add(3, lambda: [r.choice(SLICES), self.ty(d - 1)])
            add(2, lambda: self.opt(d))
            if self.b["callables"]:
                add(1.0, lambda: ["fn", int(r.random() < 0.3), self.ret(d - 1), [self.ty(d - 1) for _ in range(self.arity())]])
                add(1.3, lambda: ["clo", r.choice(["Box", "Arc", "Ref"]), self.ret(d - 1), [self.ty(d - 1) for _ in range(self.arity())]])
                trs = self.named(["trait"])
                if trs:
                    add(1, lambda: self.inst(r.choice(trs), d))
        tot = sum(k for k, _ in w)
        x = r.random() * tot
        for k, f in w:
            x -= k
            if x < 0:
                return f()
        return w[0][1]()

    def opt(self, d):
        for _ in range(20):
            t = self.ty(d)
            if self.is_copy_opt(t):
                return ["opt", t]
        return ["opt", ["ref", self.ty(d - 1)]]

    def arity(self):
        return self.r.choice([0, 1, 1, 2, 2, 3, 4]) if self.r.random() < 0.9 else self.r.randint(5, 9)

    def ret(self, d):
        return ["unit"] if self.r.random() < 0.25 else self.ty(d)

    def weight(self, t, lim=3000):
        """Rough size in bytes by value, to keep stacks and texts small."""
        g = t[0]
        if g == "arr":
            return t[2] * self.weight(t[1])
        f = self.p.fields(t) if g in ("st", "tup", "tag", "nt") else None
        if g == "nt" and f is None:
            return self.weight(self.p.inner(t))
        if f and g != "arr":
            return sum(self.weight(x) for _, x in f if x is not t)
        return SIZE.get(g, 24)

    def small(self, d, f=None):
        for _ in range(40):
            t = (f or self.ty)(d)
            # `reach`: values behind pointers count too
            if self.reach(t) <= self.b.get("reach", 1500):
                return t
        return ["u32"]

    def reach(self, t, depth=0):
        if depth > 12:
            return 1e9
        g = t[0]
        if g == "arr":
            return t[2] * self.reach(t[1], depth + 1)
        if g in SLICES:
            return 8 + 3 * self.reach(t[1], depth + 1)
        if g in ("fn", "clo"):
            return 4 + sum(self.reach(x, depth + 1) for x in self.p.parts(t))
        if g == "vp":
            return 10 + sum(self.reach(x, depth + 1) for x in self.p.parts(t))
        ps = self.p.parts(t)
        if not ps:
            return 1
        return 1 + sum(self.reach(x, depth + 1) for x in ps)

    def add(self, item):
        self.items.append(item)
        self.p.by_name[item["name"]] = item

    def gen(self):
        r = self.r
        plan = []
        for k in ("structs", "newtypes", "enums", "opaques", "traits", "consts"):
            n = self.b[k]
            plan += [k[:-1]] * r.randint(0 if n < 3 else 1, n + 1) if n else []
        r.shuffle(plan)
        for k in plan:
            getattr(self, "new_" + k)()
        for _ in range(self.b["fns"]):
            self.new_fn()
        # two constants or enumerators of one C name are the program's fault
        seen = set()
        for i in self.items:
            for v in i["variants"] if i["kind"] == "enum" else []:
                while (n := re.sub("[^a-z0-9]", "", (self.p.cname_of_item(i["name"]) + v[0]).lower())) in seen:
                    v[0] += "Q"
                seen.add(n)
        for i in self.named(["const"]):
            while re.sub("[^a-z0-9]", "", i["name"].lower()) in seen:
                del self.p.by_name[i["name"]]
                i["name"] += "Q"
                self.p.by_name[i["name"]] = i
        return self.p

    def rename(self, it, prob=0.12):
        if self.r.random() < prob:
            it["rename"] = self.name() if self.r.random() < 0.5 else self.name(True)
        return it

    def new_struct(self):
        r = self.r
        n = r.choice([0, 0, 0, 1, 2])
        used = set()
        fs = []
        for _ in range(r.randint(1, 6)):
            t = self.small(self.b["maxdepth"] - 1)
            if n and r.random() < 0.6:
                k = r.randrange(n)
                t = r.choice([["par", k], ["par", k], ["ref", ["par", k]], ["arr", ["par", k], r.randint(1, 4)], ["sref", ["par", k]], ["vec", ["par", k]],
                              ["box", ["par", k]], ["tup", [["par", k], ["u8"]]]])
            fs.append([self.field_name(used), t, self.docs()])
        if n:
            for k in range(n):
                if not any('["par", %d]' % k in key(f[1]) for f in fs):
                    fs.insert(r.randrange(len(fs) + 1), [self.field_name(used), r.choice([["par", k], ["ph", ["par", k]]]), []])
        if r.random() < 0.2:
            fs.insert(r.randint(1, len(fs)), [self.field_name(used), ["ph", ["u64"]], self.docs()])
        if all(f[1][0] == "ph" for f in fs):
            fs.append([self.field_name(used), ["u16"], []])
        it = dict(kind="struct", name=self.name(True), generics=n, fields=fs, docs=self.docs())
        if r.random() < 0.2:
            it["tuple"] = 1
            it["fields"] = [[f"_{k}"] + f[1:] for k, f in enumerate(fs)]
        if not n:
            self.rename(it)
        self.add(it)

    def new_newtype(self):
        r = self.r
        n = r.choice([0, 0, 1])
        t = self.small(self.b["maxdepth"] - 1)
        if n:
            t = r.choice([["par", 0], ["ref", ["par", 0]], ["vec", ["par", 0]], ["arr", ["par", 0], 3], ["box", ["par", 0]]])
        it = dict(kind="newtype", name=self.name(True), generics=n, inner=t, docs=self.docs(), phantom=r.choice([1, 1, 2, 3, 4]) if r.random() < 0.25 else 0)
        self.add(it)

    def new_enum(self):
        r = self.r
        rep = r.choice(["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "C", "u8", "i8"] + (["usize", "isize"] if self.b.get("size_enums") else []))
        lo, hi = rng_of(rep)
        vs, used, last = [], set(), -1
        names = set()
        for _ in range(r.randint(1, 7)):
            for _try in range(20):
                m = r.random()
                if m < 0.5:
                    d, val = None, last + 1
                elif m < 0.75:
                    val = d = r.choice([lo, hi, lo + 1, hi - 1, 0, 1, -1, 127, 128, 255, 256, 32767, 65535, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, -128, -2**31])
                else:
                    val = d = r.randint(lo, hi) if r.random() < 0.5 else r.randint(max(lo, -200), min(hi, 200))
                if lo <= val <= hi and val not in used:
                    break
            else:
                continue
            while True:
                vn = "".join(r.choice(SYL) for _ in range(r.randint(1, 2))).capitalize() + (r.choice(SYL).capitalize() if r.random() < 0.3 else "")
                if vn not in names:
                    names.add(vn)
                    break
            used.add(val)
            last = val
            vs.append([vn, d, self.docs(), val])
        if not vs:
            vs = [["Only", None, [], 0]]
        self.add(self.rename(dict(kind="enum", name=self.name(True), repr=rep, variants=vs, docs=self.docs())))

    def new_opaque(self):
        std = self.r.choice(STD_OPAQUE) if self.r.random() < 0.3 else None
        if std and all(i.get("std") != std for i in self.items):
            return self.add(dict(kind="opaque", name=self.name(True), generics=0, docs=[], std=std))
        self.add(dict(kind="opaque", name=self.name(True), generics=self.r.choice([0, 0, 1]), docs=self.docs()))

    def new_trait(self):
        r = self.r
        clone = r.random() < 0.5
        used = {"clone", "drop"}
        ms = []
        for _ in range(r.randint(1, 3)):
            an = set()
            ms.append(dict(name=self.name(), mut=int(not clone and r.random() < 0.5), args=[[self.field_name(an), self.small(1)] for _ in range(r.randint(0, 3))],
                           ret=["unit"] if r.random() < 0.3 else self.small(1), docs=self.docs()))
        self.add(dict(kind="trait", name=self.name(True), clone=int(clone), methods=ms, docs=self.docs()))

    def new_const(self):
        r = self.r
        ty = r.choice(INTS + ["f32", "f64", "bool", "&str"])
        it = dict(kind="const", name=self.name().upper(), ty=ty, docs=self.docs())
        if ty in INTS:
            lo, hi = rng_of(ty)
            v = r.choice([lo, hi, 0, 1, lo + 1, hi - 1, r.randint(lo, hi), min(hi, 2**31), min(hi, 2**32), max(lo, -1), max(lo, -2**31), min(hi, 2**63)])
            it["rs"] = {lo: f"{ty}::MIN", hi: f"{ty}::MAX"}.get(v, f"{v}") if r.random() < 0.3 else str(v)
            it["val"] = v
        elif ty == "bool":
            it["val"] = r.random() < 0.5
            it["rs"] = "true" if it["val"] else "false"
        elif ty == "&str":
            s = "".join(r.choice(["a", "Z", "0", "7", "9", " ", "\"", "\\", "\n", "\t", "\x01", "\x7f", "é", "∀", "🦀", "?", "??/", "%", "{}", "*/", "//", "'", "\r", "f", "e", "A"])
                        for _ in range(r.randint(0, 9)))
            it["rs"], it["val"], it["untyped"] = rstr(s).replace("\\x7f", "\\u{7f}"), s, 1
        else:
            v = r.choice(["1.5", "-0.0", "0.0", "1e30", "-1e-30", "0.1", f"{ty}::MAX", f"{ty}::MIN_POSITIVE", f"{ty}::INFINITY", f"-{ty}::INFINITY", "3.0", "16777217.0",
                          f"{ty}::EPSILON", f"{ty}::MIN", "123456789.0", "1e21", "-7.0", f"{ty}::from_bits_", f"{ty}::NAN"])
            if v.endswith("_"):
                import struct
                if ty == "f32":
                    x = struct.unpack("<f", struct.pack("<I", r.getrandbits(31) % 0x7f800000))[0]
                else:
                    x = struct.unpack("<d", struct.pack("<Q", r.getrandbits(63) % 0x7ff0000000000000))[0]
                v = repr(x)
                if "e" not in v and "." not in v:
                    v += ".0"
            it["rs"], it["val"] = v, None
        if ty != "&str" and r.random() < 0.3:
            it["untyped"] = 1
        self.add(it)

    def new_fn(self):
        r = self.r
        used = set()
        args = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8]) if r.random() < 0.95 else r.randint(9, 14)):
            t = self.small(self.b["maxdepth"])
            if r.random() < 0.1:
                t = ["out", self.small(1)]
            a = [self.field_name(used), t]
            k = r.random()
            if k < 0.25:
                a.append("mut" if k < 0.05 else "ref" if k < 0.08 else "lt" if t[0] in ("ref", "mut", "sref", "smut", "strref", "cref") else "open")
            if r.random() < 0.03:
                a[0] = r.choice(["__arg_%d" % r.randint(0, 4), "__arg_", "__arg_x"])
                while a[0] in used:
                    a[0] += "_"
                used.add(a[0])
            args.append(a)
        it = dict(kind="fn", name=self.name(), args=args, ret=["unit"] if r.random() < 0.15 else self.small(self.b["maxdepth"]), docs=self.docs(),
                  noret=int(r.random() < 0.5), pub=int(r.random() < 0.5), abi=int(r.random() < 0.1),
                  unsafe=int(r.random() < 0.1))
        if r.random() < self.b["asyncs"] and not any(a[1][0] == "out" for a in args):
            it["async"], it["abi"] = r.randint(1, 60), 0
        self.rename(it, 0.08)
        if r.random() < self.b["raw"] and not it.get("rename"):
            n = r.choice(RAW_NAMES)
            if n not in self.names:
                self.names.add(n)
                it["name"] = n
        # an argument named like the function hides it from the nested shim (a compile-time limitation)
        for a in it["args"]:
            while a[0].replace("r#", "") in (it["name"].replace("r#", ""), it.get("rename")):
                a[0] = self.field_name(used)
        self.add(it)


def generate(seed, bias=None):
    p = Gen(random.Random(seed), bias).gen()
    r = random.Random(f"{seed}-export")
    for i in p.items:
        if i["kind"] in ("struct", "enum", "newtype", "opaque") and not i.get("generics") and r.random() < 0.3 and not i.get("std"):
            i["export"] = 1
    names, drop = {}, []
    for i in p.items:
        ts = [a[1] for a in i["args"]] + [i["ret"]] if i["kind"] == "fn" else [p.type_of(i)] if i.get("export") else []
        if p.ambiguous(ts, names):
            drop.append(i["name"])
    return without(p, drop) if drop else p


def catalogue(seed):
    """Programs with every array length, every arity of callables, every primitive in every generic type, and generic
    types which differ in their arguments only."""
    out = []
    for k in range(5):
        r = random.Random(f"{seed}-catalogue-{k}")
        g = Gen(r, dict(structs=0, newtypes=0, enums=0, opaques=0, traits=0, consts=0, fns=0, docs=0.1))
        if k == 0:
            e = [r.choice(["u8", "i8", "bool", "u16", "i16"])]
            ts = [["arr", e, n] for n in ARRAY_LENS]
            r.shuffle(ts)
        elif k == 1:
            ts = []
            for n in range(10):
                p = lambda: [r.choice(PRIMS)]
                ts += [["fn", r.randint(0, 1), p(), [p() for _ in range(n)]]]
                ts += [["clo", c, p() if r.random() < 0.8 else ["unit"], [p() for _ in range(n)]] for c in ("Box", "Arc", "Ref")]
        elif k == 2:
            ts = []
            for x in PRIMS:
                ts += [[c, [x]] for c in SLICES + ("tag", "box", "cptr", "mptr", "nn", "nnref", "nnmut", "nnown", "ref", "mut")]
                ts += [["opt", ["ref", [x]]], ["tup", [[x] for _ in range(1 + PRIMS.index(x) % 6)]], ["arr", [x], 1 + PRIMS.index(x)]]
        elif k == 4:
            ts = []
            for s in STD_OPAQUE:
                i = dict(kind="opaque", name=g.name(True), generics=0, docs=[], std=s)
                g.add(i)
                ts += [[c, ["op", i["name"], []]] for c in ("ref", "mut", "box", "cptr", "nn", "nnown")]
            r.shuffle(ts)
        else:
            e, f = [r.choice(INTS)], [r.choice(INTS)]
            xs = [["cptr", e], ["mptr", e], ["cptr", ["cptr", e]], ["mptr", ["cptr", e]], ["fn", 0, e, []], ["fn", 0, ["unit"], [e]], ["fn", 0, f, [e]],
                  ["fn", 0, ["unit"], []], ["arr", e, 1], ["arr", e, 3], ["tup", [e]], ["tup", [e, f]], ["tag", e], ["cref"], ["cbox"]]
            xs += [[c, e] for c in SLICES] + [["clo", c, e, []] for c in ("Box", "Arc", "Ref")] + [["clo", "Box", ["unit"], [e]], ["clo", "Arc", f, [e]]]
            ts = [[c, x] for x in xs for c in ("vec", "smut")] + [["arr", x, 2] for x in xs] + [["tup", [x]] for x in xs] + [["fn", 0, x, []] for x in xs if x[0] not in ("tup", "smut", "vec")]
        for i in range(0, len(ts), 6):
            u = set()
            a = ts[i:i + 6]
            g.add(dict(kind="fn", name=g.name(), args=[[g.field_name(u), t] for t in a], ret=r.choice(a), docs=g.docs(), noret=0, pub=1, abi=0, unsafe=0))
        out.append(g.p)
    return out


def without(prog, drop):
    """The program without the named items and without everything that uses them."""
    drop = set(drop)
    while True:
        more = {i["name"] for i in prog.items if i["name"] not in drop and prog.uses(i) & drop}
        if not more:
            break
        drop |= more
    return Program([i for i in prog.items if i["name"] not in drop])


if __name__ == "__main__":
    import sys
    p = generate(int(sys.argv[1]))
    print(p.rust())
