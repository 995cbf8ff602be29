"""H04: header generation is deterministic and complete, its options do what they document, and failures are reported."""
import os, random, re, shutil
from common import CheckError
import csharp, hdr_c, hdr_x, progen, progbuild

RULE = ("evaluation = one generation with generated options into a generated writer (or a comparison of a whole header with the list of exports, or of two builds). Non-trivial and "
        "distinct = a distinct (program, language, options, writer kind, failure position) where an option is set or the writer is not a plain vector")
BANNER = ("/*! \\file */\n/*******************************************\n *                                         *\n *  File auto-generated by `::safer_ffi`.  *\n"
          " *                                         *\n *  Do not manually edit this file.        *\n *                                         *\n"
          " *******************************************/\n")
KINDS = "Other BrokenPipe PermissionDenied WouldBlock TimedOut UnexpectedEof InvalidData ConnectionReset".split()
LANGS = ("c", "cs", "py")
SENT = ("Q0_guard_Q", "/* Q1_banner_Q */", "/* Q2_text_Q */")
TEXTS = ["", "#include <stdio.h>", "#define Q_EXTRA 1\n", "// line\n// two", "/* braces {} {0} {guard} %s \\ */", "\n", "/* é∀ */", "typedef int q_extra_t;", "\n\n#undef Q_NOTHING\n\n", "/**/" * 40]
BANNERS = ["", "/* mine */", "// c", "/* {} {guard} */", "/*\n * many\n * lines\n */\n", "/* ünï */\n\n", "\n", "/* %d \\n */"]


def hexed(s):
    return "-" if s is None else "x" + s.encode().hex()


def env_of(lib):
    """Environment that names the library, and its name"""
    kind, name = lib
    if kind == "crate":
        return dict(CARGO_CRATE_NAME=name, CARGO_PKG_NAME="other-name"), name
    return dict(CARGO_CRATE_NAME=None, CARGO_PKG_NAME=name), name.replace("-", "_")


def raw_items(rnd, prog):
    """Exports that share a name with another export, without conflicting in the header"""
    out = []
    for k in range(rnd.randint(1, 4)):
        n = f"Tie{k}"
        st = f"#[ffi_export] #[derive_ReprC] #[repr(C)] pub struct {n} {{ x: u{rnd.choice([8, 16, 32, 64])} }}"
        fn = f"#[ffi_export] pub fn {n}(_a: u8) -> u16 {{ 0 }}"
        parts = [st, fn]
        rnd.shuffle(parts)
        if rnd.random() < 0.5:
            parts = [f"pub mod tie{k}_{j} {{ use super::*; {p} }}" for j, p in enumerate(parts)]
        out.append(dict(kind="raw", name=f"raw{k}", rs="\n".join(parts), fns=[n], types=[n + "_t"]))
    if rnd.random() < 0.6:
        # an item that nothing but its export mentions, deep in a module
        out.append(dict(kind="raw", name="rawm", rs="mod deep { pub mod er { use safer_ffi::prelude::*; #[ffi_export] pub const DEEP_C: u8 = 7; #[ffi_export] fn deep_fn() {} "
                        "#[ffi_export] #[derive_ReprC] #[repr(u8)] pub enum DeepEnum { A, B } } }\nfn in_a_body() { #[ffi_export] fn in_a_fn(_: u8) {} }",
                        fns=["deep_fn", "in_a_fn"], types=["DeepEnum_t"], consts=["DEEP_C"]))
    return out


CONFLICTS = {
    "const-const": ("mod k1 { use safer_ffi::prelude::*; #[ffi_export] pub const CLASH: u8 = 1; } mod k2 { use safer_ffi::prelude::*; #[ffi_export] pub const CLASH: u16 = 2; }"),
    "const-const-equal": ("mod k1 { use safer_ffi::prelude::*; #[ffi_export] pub const CLASH: u8 = 1; } mod k2 { use safer_ffi::prelude::*; #[ffi_export] pub const CLASH: u8 = 1; }"),
    "const-fn": "mod k1 { use safer_ffi::prelude::*; #[ffi_export] pub const clash: u8 = 1; } mod k2 { use safer_ffi::prelude::*; #[ffi_export] fn clash() {} }",
    "const-rename": "#[ffi_export] pub const CLASH: i64 = 1;\n#[ffi_export(rename = \"CLASH\")] fn other() {}",
    "fn-type": "#[ffi_export] fn clash_t() {}\n#[ffi_export] #[derive_ReprC] #[repr(C)] pub struct aaa_user { x: clash }\n#[derive_ReprC] #[repr(C)] pub struct clash { y: u8 }",
    "type-type": ("mod k1 { use safer_ffi::prelude::*; #[ffi_export] #[derive_ReprC] #[repr(C)] pub struct Clash { x: u8 } } "
                  "mod k2 { use safer_ffi::prelude::*; #[ffi_export] #[derive_ReprC] #[repr(C)] pub struct Clash { x: u64, y: u8 } }"),
}


def plans(rnd, prog, sizes, taken, n):
    """[(id, language, stable, guard, banner, text, writer, a, b)]"""
    out = []
    for k in range(n):
        lang = rnd.choice(["c", "c", "c", "default", "cs", "py"])
        o = lambda f, p: f() if rnd.random() < p else None
        guard = o(lambda: rnd.choice(["MY_H", "_X", "a", "G" * 60, "__ASGARD__", f"H_{rnd.randrange(10**6)}"]), 0.4)
        banner, text = o(lambda: rnd.choice(BANNERS), 0.4), o(lambda: rnd.choice(TEXTS), 0.4)
        stable = rnd.choice(["-", "-", "-", "1", "0"])
        w = rnd.choice(["vec", "vec", "short", "short", "interrupted", "fail", "fail", "fail", "zero", "once", "bufvec", "buffail", "buffail", "linefail", "mutref", "dyn", "definer",
                        "definerfail", "hashdefiner", "file", "file", "path", "dir", "full", "taken"])
        a, b = rnd.choice([1, 1, 2, 3, 7, 64, 1000]), rnd.randrange(1, 40)
        size = sizes["c" if lang == "default" else lang]
        if w in ("fail", "zero", "buffail", "linefail", "definerfail"):
            a = rnd.choice([0, 1, rnd.randrange(size), rnd.randrange(size), rnd.randrange(max(0, size - 40), size + 1), size - 1, size + 10**6])
            b = rnd.randrange(1, 200) if w == "buffail" else b
        if w == "once":
            a = rnd.choice([1, 2, 3, rnd.randrange(1, 40), rnd.randrange(1, 400)])
        if w == "taken":
            w = "taken:" + rnd.choice(taken) if taken else "vec"
        out.append((k, lang, stable, guard, banner, text, w, a, b))
    return out


class Fail(Exception):
    pass


def run_plan(tc, b, plan, env):
    with open(os.path.join(b.dir, "plan"), "w") as f:
        for k, lang, stable, g, ba, t, w, a, bb in plan:
            f.write(f"{k} {lang} {stable} {hexed(g)} {hexed(ba)} {hexed(t)} {w} {a} {bb}\n")
            p = os.path.join(b.dir, f"o{k}")
            if os.path.exists(p):
                os.remove(p)
            if w == "file" and a % 2:
                with open(p, "w") as fo:
                    fo.write("stale " * 100000)
    r = tc.call(b.so, "vh_options", b.dir, env)
    if r.returncode:
        raise Fail("crash", f"header generation ends the process: exit {r.returncode} {r.err[-500:]}")
    res = [l.split(" ", 3) for l in open(os.path.join(b.dir, "results"), encoding="utf-8").read().splitlines()]
    out = []
    for (k, *_), x in zip(plan, res):
        assert int(x[0]) == k
        p = os.path.join(b.dir, f"o{k}")
        out.append((x[1:], open(p, "rb").read() if os.path.isfile(p) else None))
    return out


def oracle(tc, b, opts):
    try:
        return oracle_(tc, b, opts)
    except Fail as e:
        return [e.args], {}
    except csharp.Bad as e:
        return [("complete", "C#: " + str(e))], {}


def oracle_(tc, b, opts):
    rnd = random.Random(f"h04-{opts['seed']}")
    p, d = b.prog, b.dir
    env, lib = env_of(opts["lib"])
    n, keys, lab = 0, set(), {}
    if opts.get("conflict"):
        for lang in LANGS + ("c", "cs"):
            stable = "-" if n < 3 else "0"
            (r, got), = run_plan(tc, b, [(0, lang, stable, None, None, None, "vec", 1, 1)], env)
            n += 1
            if r[0] != "err":
                sig = f"conflict-ignored:{opts['conflict']}{'' if stable == '-' else ':unstable'}"
                return [(sig, f"conflicting exports ({opts['conflict']}): header generation for {lang} answers {' '.join(r)} instead of an error")], {}
            if r[1] != "AlreadyExists":
                return [("conflict-ignored", f"conflicting exports ({opts['conflict']}): unexpected error {' '.join(r)}")], {}
        return [], dict(evaluations=n, keys={hash((opts["conflict"], opts["seed"]))}, labels={"conflict:" + opts["conflict"]: 1}, sample=f"conflict {opts['conflict']}: AlreadyExists")

    # ---- reference texts, with sentinels in place of the options
    ref_plan = []
    for lang in LANGS:
        for stable in "10":
            for text in (None, SENT[2]):
                ref_plan.append((len(ref_plan), lang, stable, SENT[0], SENT[1], text, "vec", 1, 1))
    ref = {}
    for (k, lang, stable, _, _, text, *_), (r, got) in zip(ref_plan, run_plan(tc, b, ref_plan, env)):
        n += 1
        if r[0] != "ok":
            raise Fail("generation", f"header generation for {lang} fails: {' '.join(r)}")
        t = got.decode("utf-8")
        ref[lang, stable, text is not None] = t
        if not t.startswith(SENT[1] + "\n") or t.count(SENT[1]) != 1:
            raise Fail("options", f"{lang}: the banner is not what the header starts with: {t[:200]!r}")
        if lang == "c":
            i, de, ex = t.find(f"#ifndef {SENT[0]}\n"), t.find(f"#define {SENT[0]}\n"), t.find('extern "C"')
            if not 0 <= i < de < ex or f"#endif" not in t[-80:]:
                raise Fail("options", f"the guard is not around the header: {t[:300]!r}")
            if text and (t.count(text) != 1 or not de < t.find(text) < ex):
                raise Fail("options", f"the text after the guard is not there: {t[:400]!r}")
    for lang in LANGS:
        n += 1
        if sorted(ref[lang, "1", False].splitlines()) != sorted(ref[lang, "0", False].splitlines()):
            a, z = ref[lang, "1", False].splitlines(), ref[lang, "0", False].splitlines()
            raise Fail("options", f"{lang}: stable_header(false) does more than change the order: {[l for l in a if l not in z][:3]} {[l for l in z if l not in a][:3]}")

    def full(lang, stable, guard, banner, text):
        lang = "c" if lang == "default" else lang
        t = ref[lang, "0" if stable == "0" else "1", text is not None]
        banner = BANNER if banner is None else banner
        guard = f"__RUST_{lib.upper()}__" if guard is None else guard
        m = {SENT[0]: guard, SENT[1]: banner, SENT[2]: text}
        return re.sub("|".join(re.escape(s) for s in SENT), lambda x: m[x[0]], t).encode()

    # ---- completeness, per language
    exp_fns = [p.export_name(f) for f in hdr_c.exported(p)] + [x for i in p.items for x in i.get("fns", ())]
    consts = [i for i in p.items if i["kind"] == "const"]
    raw_consts = [x for i in p.items for x in i.get("consts", ())]
    types = [x for i in p.items for x in i.get("types", ())] + [(i.get("rename") or i["name"].replace("r#", "")) + "_t" for i in p.items if i.get("export") and i["kind"] != "newtype"]
    for stable in "10":
        with open(os.path.join(d, "h.h"), "w") as f:
            f.write(ref["c", stable, False])
        with open(os.path.join(d, "h.c"), "w") as f:
            f.write('#include "h.h"\n#include "h.h"\n')
        ast, err = hdr_c.clang_ast(tc, b, "h.c")
        if ast is None:
            raise Fail("complete", f"the C header (stable_header({stable})) does not compile: {err}")
        fns = [x["name"] for x in ast["inner"] if x["kind"] == "FunctionDecl" and not x.get("isImplicit")]
        tds = [x["name"] for x in ast["inner"] if x["kind"] == "TypedefDecl"]
        r = tc.ctx.run(["gcc", "-E", "-dM", "-I", d, os.path.join(d, "h.c")], check=False)
        macros = re.findall(r"^#define (\w+)", r.out, re.M)
        n += 1
        if sorted(fns) != sorted(exp_fns):
            raise Fail("complete", f"C header (stable_header({stable})): functions missing {sorted(set(exp_fns) - set(fns))[:4]}, not exported {sorted(set(fns) - set(exp_fns))[:4]}, twice {[x for x in set(fns) if fns.count(x) > 1][:3]}")
        miss = [t for t in types if tds.count(t) != 1] + [c for c in [c["name"] for c in consts] + raw_consts if c not in macros]
        if miss:
            raise Fail("complete", f"C header (stable_header({stable})): {miss[:4]} missing or repeated")
        cs = csharp.CSharp(ref["cs", stable, False])
        miss = set(exp_fns) ^ set(cs.fns) | {t for t in types if t not in cs.types}
        if miss or cs.dups:
            raise Fail("complete", f"C# header (stable_header({stable})): {sorted(miss)[:4]} missing or too much; repeated {cs.dups[:3]}")
        py = ref["py", stable, False]
        for f in exp_fns:
            if not re.search(rf"\b{f} ?\(", py):
                raise Fail("complete", f"Python header (stable_header({stable})): function {f} is missing")
        for t in types:
            if not re.search(rf"\b{t};", py):
                raise Fail("complete", f"Python header (stable_header({stable})): type {t} is missing")
    # ---- other builds of the same source, and other processes, give the same text
    for flags in opts["flags"]:
        n += 1
        d2 = os.path.join(d, "again")
        if flags is None:
            so2 = b.so
            os.makedirs(d2, exist_ok=True)
        else:
            so2, msg = tc.rustc(p.rust("stub", ""), d2, opts["profile"], flags=flags)
            if so2 is None:
                raise CheckError("the same program does not compile with " + " ".join(flags))
        b2 = progbuild.Built()
        b2.dir, b2.so, b2.prog = d2, so2, p
        want = [ref[l, "1", False] for l in LANGS]
        got = [g.decode() for _, g in run_plan(tc, b2, [(k, l, "-", SENT[0], SENT[1], None, "vec", 1, 1) for k, l in enumerate(LANGS)], env)]
        shutil.rmtree(d2, ignore_errors=True)
        if got != want:
            k = next(k for k in range(3) if got[k] != want[k])
            x, y = got[k].splitlines(), want[k].splitlines()
            j = next(j for j in range(min(len(x), len(y))) if x[j] != y[j])
            raise Fail("unstable", f"the same source {'built with ' + ' '.join(flags) if flags else 'run again'} yields another {LANGS[k]} header: line {j} {x[j][:100]!r} instead of {y[j][:100]!r}")

    # ---- options and writers
    plan = plans(rnd, p, {l: len(full(l, "1", None, None, None)) for l in LANGS}, exp_fns + [c["name"] for c in consts] + types, opts["plans"])
    two = []
    for x, (r, got) in zip(plan, run_plan(tc, b, plan, env)):
        k, lang, stable, guard, banner, text, w, a, bb = x
        n += 1
        want = full(lang, stable, guard, banner, text)
        what = f"language {lang}, stable {stable}, guard {guard!r}, banner {banner and banner[:20]!r}, text {text and text[:20]!r}, writer {w}({a}, {bb})"
        lab["writer:" + w.split(":")[0]] = lab.get("writer:" + w.split(":")[0], 0) + 1
        if w != "vec" or guard or banner or text or stable != "-":
            keys.add(hash((opts["seed"], x[1:])))
        if r[0] == "panic":
            raise Fail("panic", f"{what}: panics")
        fails = w in ("fail", "zero", "buffail", "linefail", "definerfail") and a < len(want)
        if w == "once":
            fails = r[0] == "err" or a == 1
        if w in ("path", "dir", "full"):
            if r[0] != "err" or (w == "path" and r[1] != "NotFound"):
                raise Fail("ignored-error", f"{what}: should report that the file cannot be written; {' '.join(r)}")
            continue
        if w.startswith("taken:"):
            name = w[6:]
            clash = name not in types
            lab["a taken name that conflicts" if clash else "a type that is already defined"] = lab.get("a taken name that conflicts" if clash else "a type that is already defined", 0) + 1
            # C# skips untyped constants of some types altogether, yet notices the name
            if clash and (r[0], r[1] if len(r) > 1 else "") != ("err", "AlreadyExists"):
                raise Fail("conflict-ignored", f"{what}: the definer says that {name} exists; {' '.join(r)}")
            if not clash and r[0] != "ok":
                raise Fail("conflict-ignored", f"{what}: {' '.join(r)}")
            continue
        if fails:
            lab["write errors reported"] = lab.get("write errors reported", 0) + 1
            kind = "WriteZero" if w == "zero" else KINDS[bb % 8]
            if r[0] != "err" or r[1] != kind or (w != "zero" and f"device error {bb}" not in r[2]):
                raise Fail("ignored-error", f"{what}: the writer fails with {kind} but the answer is {' '.join(r)}")
            if not want.startswith(got) or (w != "once" and len(got) > a):
                raise Fail("options", f"{what}: what was written before the error is not the beginning of the header")
            continue
        if r[0] != "ok":
            raise Fail("spurious-error", f"{what}: the writer works but the answer is {' '.join(r)}")
        if got != want:
            j = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), min(len(got), len(want)))
            raise Fail("options", f"{what}: {len(got)} bytes instead of {len(want)}, different from byte {j}: {got[max(0, j - 30):j + 60]!r} instead of {want[max(0, j - 30):j + 60]!r}")
        if lang in ("c", "default") and len(two) < 3 and (guard or text) and not (text and "Q_EXTRA" in text):
            two.append((k, guard or f"__RUST_{lib.upper()}__", what))
    # the guard works for what it is
    for k, guard, what in two:
        n += 1
        os.rename(os.path.join(d, f"o{k}"), os.path.join(d, f"o{k}.h"))
        e = hdr_c.cc(tc, b, "t.c", f'#include "o{k}.h"\n#include "o{k}.h"\n', ["gcc", "-std=c11", "-x", "c", "-Wno-trigraphs"])
        if e:
            raise Fail("options", f"{what}: included twice, the header does not compile: {e}")
        with open(os.path.join(d, "t.c"), "w") as f:
            f.write(f'#define {guard}\n#include "o{k}.h"\n')
        r = tc.ctx.run(["gcc", "-E", "-P", "-I", d, os.path.join(d, "t.c")], check=False)
        if r.out.strip():
            raise Fail("options", f"{what}: the guard does not guard {r.out.strip()[:200]!r}")
    x = max(plan, key=lambda x: sum(y is not None and y != "-" for y in x))
    return [], dict(evaluations=n, keys=keys, labels=lab, sample=f"{len(exp_fns)} functions, {len(consts)} constants, {len(types)} exported types; e.g. language {x[1]}, stable {x[2]}, guard {x[3]!r}, banner {x[4]!r}, text {x[5] and x[5][:30]!r}, writer {x[6]}({x[7]}, {x[8]})")


LIBS = [("crate", "p"), ("crate", "my_lib"), ("pkg", "my-lib-2"), ("pkg", "a-b_c"), ("crate", "x1_y__z"), ("pkg", "plain")]


def specs(ctx):
    out = []
    n = 240 if ctx.thorough else 26
    for k in range(n):
        s = ctx.seed * 1_000_003 + 700_000 + k
        rnd = random.Random(f"h04s-{s}")
        prog = progen.generate(s, dict(fns=rnd.choice([2, 5, 8]), structs=3, consts=rnd.choice([0, 2, 5])))
        opts = dict(profile="debug", body="stub", seed=s, lib=rnd.choice(LIBS), plans=400 if ctx.thorough else 200,
                    flags=[None, ["-Ccodegen-units=1"], ["-Ccodegen-units=64", "-Copt-level=1"]][:3 if k % 2 else 2])
        if k % 4 == 3:
            kind = list(CONFLICTS)[(k // 4) % len(CONFLICTS)]
            prog = progen.generate(s, dict(fns=2, structs=1, consts=1, traits=0))
            prog.items.insert(rnd.randrange(len(prog.items) + 1), dict(kind="raw", name="clash", rs=CONFLICTS[kind]))
            opts["conflict"] = kind
        else:
            for i in raw_items(rnd, prog):
                prog.items.insert(rnd.randrange(len(prog.items) + 1), i)
        prog = progen.Program(prog.items)
        out.append((prog, opts))
    return out


class Sweep(progbuild.Sweep):
    def examine(self, prog, d, opts):
        # a conflict is only one while both sides are there
        if opts.get("conflict") and not any(i["kind"] == "raw" for i in prog.items):
            return "ok", [], {}
        if os.path.isdir(d):
            shutil.rmtree(d)
        b = progbuild.Built()
        b.dir, b.prog = d, prog
        b.so, msg = self.tc.rustc(prog.rust("stub", ""), d, opts["profile"])
        if b.so is None:
            errs = [l for l in msg.splitlines() if l.startswith("error")]
            return "rustc", [("does-not-compile", "rustc rejects the program: " + " | ".join(errs[:4])[:800])], {}
        fs, st = self.oracle(self.tc, b, opts)
        return ("bad" if fs else "ok"), fs, st


def check(ctx):
    return Sweep(ctx, oracle, "stub").run(specs(ctx), RULE)


def replay(ctx, path):
    return Sweep(ctx, oracle, "stub").replay(path)
