"""Oracles over the generated C header: H01 (compiles, signatures), L02 (layout)."""
import json, os, re
from common import CheckError
import progen, progc, progbuild

# ------------------------------------------------------------------ helpers


def model(b):
    return progc.CGen(b.prog, b.facts)


def cc(tc, b, name, text, cmd, timeout=200):
    """-> diagnostics ('' if none)"""
    p = os.path.join(b.dir, name)
    with open(p, "w") as f:
        f.write(text)
    r = tc.ctx.run([*cmd, "-fsyntax-only", "-I", b.dir, p], check=False, timeout=timeout)
    if r.returncode == 0 and not r.err.strip():
        return ""
    ls = [l for l in r.err.splitlines() if re.search(r"(error|warning):", l)]
    return " | ".join(l.replace(b.dir + "/", "") for l in ls[:3])[:900] or r.err[-600:]


def big_enumerators(prog):
    return any(not -2**31 <= v[3] < 2**31 for i in prog.items if i["kind"] == "enum" for v in i["variants"])


def exported(prog):
    return [i for i in prog.items if i["kind"] == "fn"]


def prototype(cg, f):
    ps = []
    for an, t, *_ in f["args"]:
        ps.append(cg.decl(t, an.replace("r#", "")))
    return cg.decl(f["ret"], f"{cg.p.export_name(f)}({', '.join(ps) or 'void'})")


def prototype_ptr(cg, f):
    return cg.decl(f["ret"], f"(*)({', '.join(cg.decl(t, '') for _, t, *_ in f['args']) or 'void'})")


def clang_ast(tc, b, name, std="-std=c11"):
    p = os.path.join(b.dir, name)
    r = tc.ctx.run(["clang", std, "-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-I", b.dir, p], check=False, timeout=200)
    if r.returncode:
        return None, r.err[-600:]
    return json.loads(r.out), ""


H01_RULE = ("evaluation = one generated header through one compiler setting or one of the comparisons with the specification. Non-trivial and distinct = a distinct "
            "exported signature, constant, or type definition in headers that have at least one function whose parameter or result is not a plain number")


def h01(tc, b, opts):
    p, cg = b.prog, model(b)
    out, n = [], 0
    twice = '#include "header.h"\n#include "header.h"\n'
    strict = ["-Wall", "-Wextra", "-Werror", "-Wredundant-decls", "-Wno-unknown-pragmas", "-Wno-trigraphs"]
    protos = "-Wstrict-prototypes"
    cmds = [["gcc", "-std=c11", "-x", "c", *strict, protos], ["gcc", "-std=c99", "-x", "c", *strict, protos], ["g++", "-std=c++11", "-x", "c++", *strict],
            ["clang", "-std=c99", "-x", "c", "-w", "-Werror=typedef-redefinition", "-Werror=strict-prototypes"]]
    if big_enumerators(p):
        # "ISO C restricts enumerators to int": unavoidable, hence not an error here
        cmds.append(["clang++", "-std=c++17", "-x", "c++", "-Wall", "-Wextra", "-Werror", "-Wno-enum-too-large"])
    else:
        cmds.append(["clang", "-std=c11", "-x", "c", "-Wall", "-Wextra", "-Werror"])
        cmds.append(["clang++", "-std=c++11", "-x", "c++", "-Wall", "-Wextra", "-Werror"])
    for k, c in enumerate(cmds):
        n += 1
        e = cc(tc, b, f"inc{k}.c", twice, c)
        if e:
            out.append(("compile", f"{' '.join(c[:2])}: {e}"))
            return out, dict(evaluations=n)
    # only the header decides what it declares: nothing before it (self-contained), all of these after it
    protos = [prototype(cg, f) for f in exported(p)]
    t = twice + "#ifdef __cplusplus\nextern \"C\" {\n#endif\n" + "".join(f"{x};\n" for x in protos) + "#ifdef __cplusplus\n}\n#endif\n"
    for i in p.items:
        if i["kind"] == "const":
            t += f"#ifndef {i['name']}\n#error the constant {i['name']} is missing\n#endif\n"
    # of C: types in full (the redeclaration above uses compatibility)
    for k, c in enumerate([["gcc", "-std=c11", "-x", "c", "-Wno-trigraphs"], ["g++", "-std=c++17", "-x", "c++", "-Wno-trigraphs"], ["clang", "-std=c11", "-x", "c", "-w"]]):
        n += 1
        e = cc(tc, b, f"sig{k}.c", t, c)
        if e:
            out.append(("signature", f"the header disagrees with the signatures that Rust exports ({c[0]}): {e}"))
            return out, dict(evaluations=n)
    names = {}
    for t in p.used_types():
        sh = p.shape(t)
        if isinstance(sh, list) and sh[0] not in ("p", "cp", "fn"):
            n += 1
            o, so = names.setdefault(cg.cname(t), (t, sh))
            if so != sh:
                out.append(("signature", f"{p.rs(o)} and {p.rs(t)} are both called {cg.cname(t)}: only one of them is declared"))
                return out, dict(evaluations=n)
    ast, err = clang_ast(tc, b, "inc0.c")
    if ast is None:
        raise CheckError("clang: " + err)
    fns = {}
    for d in ast["inner"]:
        if d["kind"] == "FunctionDecl" and not d.get("isImplicit"):
            fns.setdefault(d["name"], []).append([x.get("name", "") for x in d.get("inner", []) if x["kind"] == "ParmVarDecl"])
    for f in exported(p):
        n += 1
        name = p.export_name(f)
        if len(fns.get(name, [])) != 1:
            out.append(("signature", f"{name} is declared {len(fns.get(name, []))} times"))
        else:
            got, want = fns[name][0], [p.arg_name(f, k) for k in range(len(f["args"]))]
            if got != want:
                out.append(("parameters", f"{name}: the header names its parameters {got}, Rust {want}"))
    keys = set()
    if any(t[0] not in progen.PRIMS + ["unit"] for f in exported(p) for t in [a[1] for a in f["args"]] + [f["ret"]]):
        keys = {hash(x) for x in protos} | {hash(progen.key(i)) for i in p.items}
    lab = {"type:" + k: v for k, v in progbuild.tags(p).items()}
    lab["doc comments"] = sum(len(i.get("docs", ())) for i in p.items)
    return out[:1], dict(evaluations=n, keys=keys, labels=lab, sample=max(protos, key=len)[:300] if protos else None)


# ------------------------------------------------------------------ L02
L02_RULE = ("evaluation = one assertion (size, alignment, offset, member type or member list) on the C declaration of one type of a generated program, by gcc and by clang. "
            "Non-trivial and distinct = a distinct type (definition included) that is not a plain number")


def byvalue(cg, t):
    return cg.p.byvalue(t) and t[0] != "out" or t[0] == "out"


def initialiser(p, t):
    """`{ .., .. }` with one initialiser per member, for the member-list check."""
    return "{}" if p.fields(t) is not None or t[0] == "arr" else "0"


def l02(tc, b, opts):
    p, cg = b.prog, model(b)
    n, keys, body, types = 0, set(), [], []
    facts = b.facts

    def assert_(cond, what):
        nonlocal n
        n += 1
        # the message is JSON for the report
        body.append(f"SA({cond}, {json.dumps(what, ensure_ascii=True)});")
    for t in p.used_types():
        if t[0] in ("unit", "void", "ph", "erased", "op", "vt"):
            continue
        k = progen.key(t)
        f = facts["ty:" + k]
        ty = p.rs(t)
        if f["size"] != f["lsize"] or f["align"] != f["lalign"]:
            return [("layout", f"{ty}: size and alignment {f['size']}, {f['align']} but its C layout type has {f['lsize']}, {f['lalign']}")], {}
        tn = f"T{len(types)}"
        types.append(t)
        # as the library declares it, and as this model does
        body.append(f"typedef {cg.decl(t, tn)}; typedef {f['c'].replace('@', 'L' + tn)};")
        body.append(f"SAME({tn}, L{tn}, {json.dumps(ty + ': C type')});")
        assert_(f"sizeof({tn}) == {f['size']}", f"{ty}: size is {f['size']} in Rust")
        assert_(f"ALIGNOF({tn}) == {f['align']}", f"{ty}: alignment is {f['align']} in Rust")
        keys.add(hash(k + "".join(progen.key(p.by_name[x[1]]) for x in p.closure_of([t]) if len(x) > 1 and isinstance(x[1], str) and x[1] in p.by_name))) if t[0] not in progen.PRIMS else None
        n += 1
        fs = p.fields(t)
        base = cg.base(t)
        if base[0] == "arr":
            it, t = base[1], base
            body.append(f"SAME(MEMBER({tn}, idx), ARR(T{types.index(it)}, {t[2]}), {json.dumps(ty + ': member idx')});")
            continue
        if fs is None:
            continue
        offs = {x[0].replace("r#", ""): x for x in facts.get("fields:" + k, [])}
        for j, (fname, ft) in enumerate(fs):
            cn = fname.replace("r#", "")
            dn = f"{tn}_{j}"
            body.append(f"typedef {cg.decl(ft, dn) if ft[0] != 'arr' or t[0] != 'arr' else ''};")
            body.append(f"SAME(MEMBER({tn}, {cn}), {dn}, {json.dumps(f'{ty}: type of member {cn}')});")
            n += 1
            if cn in offs:
                assert_(f"offsetof({tn}, {cn}) == {offs[cn][1]}", f"{ty}: offset of {cn} is {offs[cn][1]} in Rust")
                assert_(f"sizeof(MEMBER({tn}, {cn})) == {offs[cn][2]}", f"{ty}: size of {cn} is {offs[cn][2]} in Rust")
        body.append(f"static {tn} const V{tn} = {{ {', '.join(initialiser(p, x) for _, x in fs)} }};")
        n += 1
    pre = ('#include "header.h"\n#include <stddef.h>\n#include <stdbool.h>\n#include <stdint.h>\n#include <sys/types.h>\n'
           "#ifdef __cplusplus\n#include <type_traits>\n#define SA static_assert\n#define ALIGNOF alignof\n"
           "template <class A, size_t N> using arr_of = A[N];\n#define ARR(a, n) arr_of<a, n>\n"
           "#define SAME(a, b, m) static_assert(std::is_same<std::remove_cv<a>::type, std::remove_cv<b>::type>::value, m)\n#define MEMBER(t, f) decltype(((t *)0)->f)\n"
           "template <class T> struct noref { typedef T type; }; template <class T> struct noref<T &> { typedef T type; };\n#undef MEMBER\n#define MEMBER(t, f) noref<decltype(((t *)0)->f)>::type\n"
           "#else\n#define SA _Static_assert\n#define ALIGNOF _Alignof\n#define ARR(a, n) __typeof__(a[n])\n"
           "#define SAME(a, b, m) _Static_assert(__builtin_types_compatible_p(__typeof__(a), __typeof__(b)), m)\n#define MEMBER(t, f) __typeof__(((t *)0)->f)\n#endif\n")
    text = pre + "\n".join(body) + "\n"
    # C++ compares closer (`is_same`), except in initialisers, which need C's laxity
    cpp = pre + "\n".join(l for l in body if not l.startswith("static T")) + "\n"
    strict = ["-Wall", "-Wextra", "-Werror", "-Wno-missing-braces", "-Wno-unused-variable", "-Wno-unused-const-variable", "-Wno-pragmas", "-Wno-trigraphs"]
    cmds = [["gcc", "-std=c11", "-x", "c", *strict, "-Wmissing-field-initializers"], ["g++", "-std=c++17", "-x", "c++", "-fpermissive", "-w"]]
    if opts["seed"] % 2:
        cmds[1] = ["clang++", "-std=c++17", "-x", "c++", "-w"]
    for k, c in enumerate(cmds):
        e = cc(tc, b, f"lay{k}.c", cpp if k else text, c)
        if e:
            return [("layout", f"{c[0]}: {e}")], dict(evaluations=n)
    lab = {"type:" + k: v for k, v in progbuild.tags(p).items()}
    big = max(types, key=lambda t: facts["ty:" + progen.key(t)]["size"]) if types else None
    return [], dict(evaluations=2 * n, keys=keys, labels=lab,
                    sample=big and f"{p.rs(big)}: size {facts['ty:' + progen.key(big)]['size']}, {len(p.fields(big) or [])} members")


def specs(ctx, n, biases, body="stub", **opts):
    out = [(p, dict(profile="debug", seed=ctx.seed, body=body, **opts)) for p in progen.catalogue(ctx.seed)]
    for k in range(n - len(out)):
        s = ctx.seed * 1_000_003 + k
        out.append((progen.generate(s, biases[k % len(biases)]), dict(profile="debug", seed=s, body=body, **opts)))
    return out


def fn(name, args, ret):
    return dict(kind="fn", name=name, args=[[f"a{k}", t] for k, t in enumerate(args)], ret=ret, docs=[], noret=0, pub=1, abi=0, unsafe=0)


# Two types of which the generated names are the same (a known finding); the generator avoids all such pairs.
U = ["u16"]
AMBIGUOUS = [
    [fn("one", [], ["smut", ["arr", U, 5]]), fn("two", [["arr", ["smut", U], 5]], ["unit"])],
    [fn("one", [], ["vec", ["fn", 0, ["u8"], [U, ["fn", 0, ["u32"], []]]]]), fn("two", [["vec", ["fn", 0, ["u8"], [["fn", 0, U, [["u32"]]]]]]], ["unit"])],
]


def ambiguous(ctx):
    return [(progen.Program(items), dict(profile="debug", seed=ctx.seed, body="stub", ambiguous=1)) for items in AMBIGUOUS]


H01_BIAS = [dict(docs=0.6), dict(docs=0.3, maxdepth=4, reach=1e6), dict(docs=0.9, fns=4, enums=4, structs=6, consts=6), dict(docs=0.2, raw=0.4), dict(maxdepth=5, fns=5, reach=1e7, structs=2)]
L02_BIAS = [{}, dict(maxdepth=4, structs=8, reach=1e6), dict(maxdepth=5, fns=6, reach=1e8), dict(callables=0, structs=8, newtypes=4)]


def check_h01(ctx):
    return progbuild.Sweep(ctx, h01).run(ambiguous(ctx) + specs(ctx, 500 if ctx.thorough else 60, H01_BIAS), H01_RULE)


def check_l02(ctx):
    return progbuild.Sweep(ctx, l02).run(specs(ctx, 500 if ctx.thorough else 64, L02_BIAS), L02_RULE)


def replay_h01(ctx, path):
    return progbuild.Sweep(ctx, h01).replay(path)


def replay_l02(ctx, path):
    return progbuild.Sweep(ctx, l02).replay(path)
