"""Oracles H02 (values in headers), H03 (C# and Python against the C interface), N01 (names)."""
import json, os, re, struct, sys
from fractions import Fraction
from common import V, CheckError
import csharp, hdr_c, progbuild, progc, progen

CFFI = "/opt/veriftools/pyvenv/bin/python"


# ------------------------------------------------------------------ H02
H02_RULE = ("evaluation = one comparison of the value of an enumerator or constant, as one language's compiler or parser sees it, with Rust's. "
            "Non-trivial and distinct = a distinct (representation or constant type, value, language) with an explicit, negative, non-ASCII or extreme value, or an implicit one after it")


def is_f32_of(text, v):
    """Whether the decimal rounds to the f32 v."""
    if v in (float("inf"), float("-inf")) or v != v:
        return False
    x = Fraction(text)
    b = struct.unpack("<I", struct.pack("<f", v))[0]
    if x == 0:
        return (b & 0x7fffffff) == 0 and (text.strip().startswith("-") == bool(b >> 31))
    up, dn = (struct.unpack("<f", struct.pack("<I", k))[0] for k in ((b + 1) & 0xffffffff, (b - 1) & 0xffffffff))
    d = abs(x - Fraction(v))
    return all(n != n or n in (float("inf"), float("-inf")) or abs(x - Fraction(n)) >= d for n in (up, dn))


def h02(tc, b, opts):
    p, cg, facts = b.prog, hdr_c.model(b), b.facts
    ast, err = hdr_c.clang_ast(tc, b, "header.h")
    if ast is None:
        return [("c", "the header does not compile: " + err)], {}
    enums = {d.get("name"): [x["name"] for x in d.get("inner", []) if x["kind"] == "EnumConstantDecl"] for d in ast["inner"] if d["kind"] == "EnumDecl"}
    used = set()
    for t in p.used_types():
        if t[0] == "en":
            used.add(t[1])
    lines, want, keys = [], {}, set()
    n = 0
    norm = lambda s: s.replace("_", "").upper()
    cs = csharp.CSharp(open(os.path.join(b.dir, "header.cs"), encoding="utf-8", newline="").read())
    for i in p.items:
        if i["kind"] == "enum" and i["name"] in used:
            short = p.cname_of_item(i["name"])
            vs = i["variants"]
            got = enums.get(short)
            if got is None:
                return [("enum", f"enum {short} is missing in the C header")], {}
            if [norm(x) for x in got] != [norm(short + v[0]) for v in vs]:
                return [("enum", f"enum {short}: enumerators {got} for the variants {[v[0] for v in vs]}")], {}
            for e, v in zip(got, vs):
                rust = int(facts[f"value:{i['name']}::{v[0]}"])
                if rust != v[3]:
                    raise CheckError("harness: value of " + v[0])
                # as compared with, and assigned to, variables of the enum's type
                lines.append(f'I("{e}", ({short}_t){e}); if (!(({short}_t){e} == {e})) printf("{e} is out of the range of {short}_t\\n");')
                want[e] = f"{'-' if rust < 0 else '+'}{rust & (2**64 - 1):x}"
                keys.add(("en", i["repr"], rust, v[1] is None))
            lines.append(f'printf("{short}_t size=%d signed=%d\\n", (int)sizeof({short}_t), ({short}_t)-1 < 1);')
            rep = {"C": "i32"}.get(i["repr"], i["repr"])
            if i["repr"] == "C":
                # the C compiler chooses; size is what the ABI fixes
                lines[-1] = f'printf("{short}_t size=%d\\n", (int)sizeof({short}_t));'
                want[short + "_t"] = "size=4"
            else:
                want[short + "_t"] = f"size={progen.SIZE[rep]} signed={int(rep[0] == 'i')}"
            # C#
            d = cs.types.get(short + "_t")
            if not d or d["kind"] != "enum":
                return [("enum-csharp", f"enum {short}_t is missing in the C# header")], {}
            if [tuple(x) for x in d["variants"]] != [(v[0], v[3]) for v in vs]:
                return [("enum-csharp", f"C# enum {short}_t has {d['variants']}, Rust {[(v[0], v[3]) for v in vs]}")], {}
            if d["base"] != csharp.Abi.PRIM[rep]:
                return [("enum-csharp", f"C# enum {short}_t is of {d['base']}, Rust's of {rep}")], {}
            n += len(vs) + 1
        if i["kind"] == "const":
            N, ty, val = i["name"], i["ty"], facts["value:" + i["name"]]
            typed = not i.get("untyped")
            if ty in progen.INTS or ty == "bool":
                v = int(val)
                lines.append(f'I("{N}", {N});')
                want[N] = f"{'-' if v < 0 else '+'}{v & (2**64 - 1):x}"
                if typed:
                    lines.append(f"TYPED({N}, {progen.C_PRIM[ty]});")
            elif ty in ("f32", "f64"):
                lines.append(f'{"F" if ty == "f32" else "D"}("{N}", {N});')
                want[N] = val
                if typed:
                    lines.append(f"TYPED({N}, {progen.C_PRIM[ty]});")
            else:
                lines.append(f'S("{N}", {N});')
                want[N] = "s" + val
            keys.add(("const", ty, val, typed))
            # C# (which has typed constants only)
            if typed and ty != "&str":
                n += 1
                c = cs.consts.get(N)
                if not c:
                    return [("const-csharp", f"constant {N} is missing in the C# header")], {}
                e = "".join(c[1])
                if c[0] != (csharp.Abi.PRIM.get(ty) or "Boolean"):
                    return [("const-csharp", f"C# constant {N} is a {c[0]}, Rust's a {ty}")], {}
                if ty == "bool":
                    good = e == ("true" if val == "1" else "false")
                elif ty in ("f32", "f64"):
                    bits = int(val, 16)
                    f = struct.unpack("<f", struct.pack("<I", bits))[0] if ty == "f32" else struct.unpack("<d", struct.pack("<Q", bits))[0]
                    k = {"f32": ("float", "Single"), "f64": ("double", "Double")}[ty]
                    if f != f:
                        good = e in [x + ".NaN" for x in k]
                    elif f in (float("inf"), float("-inf")):
                        good = e in [x + (".PositiveInfinity" if f > 0 else ".NegativeInfinity") for x in k]
                    elif ty == "f32":
                        # without the suffix it is a `double`, which C# does not convert
                        good = e[-1] in "fF" and is_f32_of(e[:-1], f)
                    else:
                        good = struct.pack("<d", float(e.rstrip("dD"))) == struct.pack("<d", f)
                else:
                    try:
                        good = int(e.rstrip("uUlL"), 0) == int(val)
                    except ValueError:
                        good = False
                if not good:
                    return [("const-csharp", f"C# constant {N} is {e}; in Rust, a {ty} of value {i['rs']}")], {}
    pre = r'''
#include "header.h"
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#define I(n, x) printf("%s %s%llx\n", n, (x) < 0 ? "-" : "+", (unsigned long long)(x))
static void pf(char const *n, float f) { uint32_t b; memcpy(&b, &f, 4); printf("%s %x\n", n, f != f ? 0x7fc00000u : (unsigned)b); }
static void pd(char const *n, double f) { uint64_t b; memcpy(&b, &f, 8); printf("%s %llx\n", n, f != f ? 0x7ff8000000000000ull : (unsigned long long)b); }
#define F(n, x) pf(n, (float)(x))
#define D(n, x) pd(n, x)
static void ps(char const *n, char const *s, size_t k) { printf("%s s", n); for (size_t i = 0; i < k; i++) printf("%02x", (unsigned char)s[i]); printf("\n"); }
#define S(n, x) ps(n, "" x, sizeof(x) - 1)
#ifdef __cplusplus
template <class A, class B> struct same { enum { v = 0 }; }; template <class A> struct same<A, A> { enum { v = 1 }; };
#define TYPED(x, t) if (!same<decltype(x), t>::v || sizeof x != sizeof(t)) printf("type " #x " is not " #t "\n")
#else
#define TYPED(x, t) if (!__builtin_types_compatible_p(__typeof__(x), t) || sizeof x != sizeof(t)) printf("type %s is not %s\n", #x, #t)
#endif
int main(void) {
'''
    text = pre.replace('#x " is not', '#x " is not').replace("#x, #t", "\"(constant)\", #t") + "\n".join(lines) + "\nreturn 0; }\n"
    with open(os.path.join(b.dir, "values.c"), "w") as f:
        f.write(text)
    cmds = [["gcc", "-std=c99", "-x", "c"], ["gcc", "-std=gnu11", "-x", "c"], ["clang", "-std=c11", "-x", "c"], ["g++", "-std=c++11", "-x", "c++"], ["clang++", "-std=c++17", "-x", "c++"]]
    for c in [cmds[0], cmds[1 + opts["seed"] % 2], cmds[3 + opts["seed"] % 2]]:
        exe = os.path.join(b.dir, "values")
        r = tc.ctx.run([*c, "-w", "-I", b.dir, os.path.join(b.dir, "values.c"), "-o", exe], check=False)
        if r.returncode:
            es = [l for l in r.err.splitlines() if "error" in l]
            return [("compile", f"{c[0]} {c[1]}: using the enumerators and constants: {' | '.join(es[:3])[:700]}")], {}
        r = tc.ctx.run([exe])
        got = {}
        for l in r.out.splitlines():
            k, _, v = l.partition(" ")
            if k == "type":
                return [("const-type", f"{c[0]}: constant of the wrong type: {v}")], {}
            got[k] = v
        for k, v in want.items():
            n += 1
            g = got.get(k)
            # NaN payloads and signs are not part of the value
            if v in ("7fc00000", "ffc00000", "7ff8000000000000", "fff8000000000000"):
                v = {"f": "7fc00000", "ff": ""}.get("f", v) if len(v) == 8 else "7ff8000000000000"
            if g != v:
                return [("value", f"{c[0]} {c[1]}: {k} is {g} in C; in Rust, {v}")], {}
    # Python
    j = dict(enums={p.cname_of_item(i["name"]): i["repr"] for i in p.items if i["kind"] == "enum" and i["name"] in used})
    r = py(tc, b, "enums", j)
    for i in p.items:
        if i["kind"] == "enum" and i["name"] in used:
            s = p.cname_of_item(i["name"])
            e = r["enums"].get(s)
            if e is None or sorted((norm(k), x) for k, x in e["values"]) != sorted((norm(s + v[0]), v[3]) for v in i["variants"]):
                return [("enum-python", f"Python enum {s} is {e}; in Rust {[(v[0], v[3]) for v in i['variants']]}")], {}
            rep = {"C": "i32"}.get(i["repr"], i["repr"])
            if e["size"] != progen.SIZE[rep] or (i["repr"] != "C" and e["signed"] != (rep[0] == "i")):
                return [("enum-python", f"Python {s}_t: {e['size']} bytes, signed: {e['signed']}; in Rust {i['repr']}")], {}
            n += len(i["variants"]) + 1
    text = open(os.path.join(b.dir, "header.cffi"), encoding="utf-8").read()
    for i in p.items:
        if i["kind"] == "const":
            n += 1
            if not re.search(r"^#define %s " % i["name"], text, re.M):
                return [("const-python", f"constant {i['name']} is missing in the Python header")], {}
    smp = next((i for i in p.items if i["kind"] in ("enum", "const")), None)
    return [], dict(evaluations=n, keys=keys, labels={"enums": len(used), "constants": sum(i["kind"] == "const" for i in p.items)},
                    sample=smp and (f"const {smp['name']}: {smp['ty']} = {smp['rs']}" if smp["kind"] == "const" else f"repr({smp['repr']}) enum {[(v[0], v[1]) for v in smp['variants']]}"))


PY = r'''
import cffi, json, sys
d, mode = sys.argv[1], sys.argv[2]
j = json.load(sys.stdin)
text = open(d + "/header.cffi", encoding="utf-8").read()
out = {}
try:
    ffi = cffi.FFI()
    ffi.cdef(text)
    if mode == "enums":
        out["enums"] = {}
        for n, rep in j["enums"].items():
            try:
                t = ffi.typeof("enum " + n)
                tt = n + "_t"
                signed = int(ffi.cast(tt, -1)) < 0 if ffi.typeof(tt).kind == "primitive" else None
                out["enums"][n] = dict(values=[[k, t.relements[k]] for k in t.relements], size=ffi.sizeof(tt), signed=signed)
            except Exception as e:
                out["enums"][n] = None
    if mode == "types":
        out["types"] = {}
        def norm(s):
            return s
        for k, decl in j["types"].items():
            try:
                t = ffi.typeof(decl)
                o = dict(size=ffi.sizeof(t), align=ffi.alignof(t), kind=t.kind)
                if t.kind == "struct":
                    o["fields"] = [[n, f.offset, f.type.cname] for n, f in t.fields]
                out["types"][k] = o
            except Exception as e:
                out["types"][k] = dict(error=repr(e)[:300])
        out["canon"] = {}
        for decl in j["canon"]:
            try:
                out["canon"][decl] = ffi.typeof(decl).cname
            except Exception as e:
                out["canon"][decl] = repr(e)[:300]
        lib = ffi.dlopen(j["so"])
        out["fns"] = {}
        for f, decl in j["fns"].items():
            try:
                got = ffi.typeof(getattr(lib, f))
                want = ffi.typeof(decl)
                out["fns"][f] = "" if got is want or got.cname == want.cname else got.cname + "  rather than  " + want.cname
            except Exception as e:
                out["fns"][f] = repr(e)[:400]
except Exception as e:
    out["error"] = repr(e)[:600]
json.dump(out, sys.stdout)
'''


def py(tc, b, mode, j):
    r = tc.ctx.run([CFFI, "-c", PY, b.dir, mode], stdin=json.dumps(j).encode(), timeout=200)
    o = json.loads(r.out)
    if "error" in o:
        raise Violation("python", "cffi rejects the Python header: " + o["error"])
    return o


class Violation(Exception):
    pass


def catching(f):
    def g(tc, b, opts):
        try:
            return f(tc, b, opts)
        except Violation as e:
            return [(e.args[0], e.args[1])], {}
        except csharp.Bad as e:
            return [("csharp", str(e))], {}
    return g


# ------------------------------------------------------------------ H03
H03_RULE = ("evaluation = one comparison of a C# or Python function, parameter, member, layout or delegate with the specification. Non-trivial and distinct = a distinct "
            "exported signature or by-value type (definitions included) which is not a plain number, in either language")


def h03(tc, b, opts):
    p, cg, facts = b.prog, hdr_c.model(b), b.facts
    cs = csharp.CSharp(open(os.path.join(b.dir, "header.cs"), encoding="utf-8", newline="").read())
    if cs.dups:
        raise csharp.Bad(f"C#: declared more than once: {cs.dups[:3]}")
    a = csharp.Abi(cs, p, facts, progen.key)
    keys = set()
    for f in hdr_c.exported(p):
        d = cs.fns.get(p.export_name(f))
        if not d:
            raise csharp.Bad(f"C#: function {p.export_name(f)} is missing")
        if not any(x.startswith("DllImport") for x in d["attrs"]) or "extern" not in d["mods"]:
            raise csharp.Bad(f"C#: function {p.export_name(f)} is not a DllImport")
        a.sig(f["ret"], [(p.arg_name(f, k), x[1]) for k, x in enumerate(f["args"])], d, p.export_name(f))
        keys.add(hash(progen.key([f["args"], f["ret"]])))
    extra = set(cs.fns) - {p.export_name(f) for f in hdr_c.exported(p)}
    if extra:
        raise csharp.Bad(f"C#: functions that Rust does not export: {sorted(extra)[:3]}")
    # everything mentioned is declared
    for n, d in cs.types.items():
        ms = [f[1] for f in d["fields"]] if d["kind"] == "struct" else [d["ret"]] + [x[1] for x in d["params"]] if d["kind"] == "delegate" else []
        for m in ms:
            a.checks += 1
            m = m.rstrip("*")
            if m not in csharp.BUILTIN and m not in cs.types:
                raise csharp.Bad(f"C#: {n} mentions {m}, which is not declared")
    n = a.checks
    # Python
    types, expect = {}, {}
    canon = {}
    for t in p.used_types():
        if t[0] in ("unit", "void", "ph", "erased", "op", "vt"):
            continue
        k = progen.key(t)
        types[k] = facts["ty:" + k]["py"].replace("@", "")
        if t[0] not in progen.PRIMS:
            keys.add(hash("py" + k))
    for t in p.used_types():
        if t[0] in ("unit", "void", "ph", "erased", "op", "vt"):
            continue
        b_ = cg.base(t)
        fs = p.fields(t)
        if fs is not None and b_[0] != "arr":
            for fn, ft in fs:
                canon[cg.decl(ft, "")] = None
    fns = {p.export_name(f): hdr_c.prototype_ptr(cg, f) for f in hdr_c.exported(p)}
    r = py(tc, b, "types", dict(types=types, so=b.so, fns=fns, canon=list(canon)))
    for t in p.used_types():
        k = progen.key(t)
        if k not in types:
            continue
        g, f = r["types"][k], facts["ty:" + k]
        n += 1
        if "error" in g:
            raise Violation("python", f"Python: {types[k]}, for {p.rs(t)}: {g['error']}")
        if (g["size"], g["align"]) != (f["size"], f["align"]):
            raise Violation("python", f"Python: {types[k]} has size, alignment {g['size']}, {g['align']}; {p.rs(t)} {f['size']}, {f['align']}")
        b_ = cg.base(t)
        fs = p.fields(t)
        if fs is not None and b_[0] != "arr":
            offs = {x[0].replace("r#", ""): x[1] for x in facts.get("fields:" + k, [])}
            want = [x[0].replace("r#", "") for x in fs]
            if [x[0] for x in g.get("fields", [])] != want:
                raise Violation("python", f"Python: {types[k]} has members {[x[0] for x in g.get('fields', [])]} rather than {want}")
            for (fn, off, cn), (_, ft) in zip(g["fields"], fs):
                n += 1
                if offs.get(fn, off) != off:
                    raise Violation("python", f"Python: offset of {types[k]}.{fn} is {off}, in Rust {offs[fn]}")
                if cn != r["canon"][cg.decl(ft, "")]:
                    raise Violation("python", f"Python: {types[k]}.{fn} is a {cn} rather than a {r['canon'][cg.decl(ft, '')]}")
    for fn, m in r["fns"].items():
        n += 1
        if m:
            raise Violation("python", f"Python: function {fn}: {m}")
    lab = {"type:" + k: v for k, v in progbuild.tags(p).items()}
    lab["C# delegates"] = sum(d["kind"] == "delegate" for d in cs.types.values())
    lab["C# structs"] = sum(d["kind"] == "struct" for d in cs.types.values())
    fx = hdr_c.exported(p)
    return [], dict(evaluations=n, keys=keys, labels=lab, sample=fx and hdr_c.prototype(cg, fx[0])[:200])


def check_h02(ctx):
    bias = [dict(enums=9, consts=14, structs=1, newtypes=1, opaques=0, fns=9, maxdepth=2), dict(enums=4, consts=30, structs=0, newtypes=0, opaques=0, traits=0, fns=3, maxdepth=1),
            dict(enums=14, consts=2, structs=0, newtypes=0, opaques=0, traits=0, fns=25, maxdepth=1)]
    return progbuild.Sweep(ctx, catching(h02)).run(hdr_c.specs(ctx, 500 if ctx.thorough else 72, bias), H02_RULE)


H03_BIAS = [{}, dict(maxdepth=4, structs=6, reach=1e6), dict(maxdepth=5, fns=6, reach=1e8), dict(raw=0.4, docs=0.9), dict(callables=3)]


def check_h03(ctx):
    return progbuild.Sweep(ctx, catching(h03)).run(hdr_c.ambiguous(ctx) + hdr_c.specs(ctx, 500 if ctx.thorough else 72, H03_BIAS), H03_RULE)


def replay_h02(ctx, path):
    return progbuild.Sweep(ctx, catching(h02)).replay(path)


def replay_h03(ctx, path):
    return progbuild.Sweep(ctx, catching(h03)).replay(path)
