"""S01, the `c!` literals: accepted and rejected at compile time, and what they read back as."""
import json, os, random, re, shutil
from common import CheckError
import progbuild

RULE = ("literals of `c!`: evaluation = one generated literal; non-trivial = one with an escape, a NUL or a non-ASCII character")
PIECES = ["a", "Z", "0", " ", "%s", "é", "∀", "🦀", "\x01", "\x7f", "\n", "\t", "\"", "\\", "'", "{}", "0", "7", "hello", "\u0080", "\uffff"]


def literal(r):
    """-> (Rust source of a string literal, its value)"""
    k = r.choice([0, 1, 1, 2, 3, 5, 9])
    ps = [r.choice(PIECES) for _ in range(k)]
    nul = r.random()
    if nul < 0.3:
        ps.append("\0")
    elif nul < 0.6:
        for _ in range(r.randint(1, 2)):
            ps.insert(r.randint(0, len(ps)), "\0")
    s = "".join(ps)
    if r.random() < 0.15 and "\0" not in s and "\r" not in s:
        return f'r##"{s}"##', s
    o = ""
    for c in s:
        f = r.random()
        if c == "\0":
            o += r.choice(["\\0", "\\x00", "\\u{0}", "\\u{000}"])
        elif c in '"\\':
            o += "\\" + c
        elif c == "\n" and f < 0.8:
            o += "\\n"
        elif ord(c) < 0x80 and (f < 0.1 or ord(c) < 32 or ord(c) == 127 or c == " " and o.endswith("\t")):
            o += f"\\x{ord(c):02x}"
        elif f < 0.2:
            o += f"\\u{{{ord(c):x}}}"
        else:
            o += c
        if f > 0.97:
            o += "\\\n   \t"  # a line continuation: no contents
    return f'"{o}"', s


def good(v):
    return "\0" not in v or v.index("\0") == len(v) - 1


HEAD = "#![allow(warnings)]\nuse progrt::safer_ffi;\nuse safer_ffi::prelude::*;\n"


def forms(n, lit):
    return [f"safer_ffi::c!({lit})", f"::progrt::safer_ffi::c![{lit}]", f"c!({lit})"][n % 3]


def examine(tc, lits, d):
    """-> (signature, message) or None"""
    bad = [x for x in lits if not good(x[1])]
    ok = [x for x in lits if good(x[1])]
    if bad:
        src, where = HEAD + "use safer_ffi::c;\n", {}
        for n, (l, v) in enumerate(bad + ok):
            a = src.count("\n") + 1
            src += f"fn f{n}() {{ let _: char_p::Ref<'static> = {forms(n, l)}; }}\n"
            for x in range(a, src.count("\n") + 1):
                where[x] = n
        so, err = tc.rustc(src, d, crate="lit", flags=["--error-format=short"])
        lines = [l for l in err.splitlines() if re.match(r".*p\.rs:\d+:\d+: error", l)]
        hit = {where.get(int(re.match(r".*p\.rs:(\d+):", l).group(1))) for l in lines}
        for n, (l, v) in enumerate(bad + ok):
            if n < len(bad) and n not in hit:
                return "literal-accepted", f"c!({l}) has an inner NUL and is accepted"
            if n >= len(bad) and n in hit:
                return "literal-rejected", f"c!({l}) is rejected: " + next(x for x in lines if where.get(int(re.match(r'.*p\.rs:(\d+):', x).group(1))) == n)[:300]
        if None in hit:
            raise CheckError(err[:2000])
    src = HEAD + "use safer_ffi::c;\n"
    src += "#[no_mangle] pub extern \"C\" fn run(_: *const u8) -> i32 {\n"
    src += "    extern \"C\" { fn strlen(_: *const u8) -> usize; }\n"
    src += ("    fn show(n: usize, r: char_p::Ref<'_>) {\n        let l = unsafe { strlen(::core::mem::transmute::<char_p::Ref<'_>, *const u8>(r)) };\n"
            "        println!(\"L {n} {l} {} {} {}\", progrt::hexs(r.to_str()), r.to_bytes().len(), r.to_bytes_with_null().last() == Some(&0));\n    }\n")
    for n, (l, v) in enumerate(ok):
        src += f"    show({n}, {forms(n, l)});\n"
    src += f"    show({len(ok)}, safer_ffi::c!());\n    0\n}}\n"
    so, err = tc.rustc(src, d, crate="lit")
    if so is None:
        raise CheckError("accepted literals do not compile: " + err[:3000])
    r = tc.call(so, "run", d, {})
    got = {int(l.split()[1]): l.split(" ")[2:] for l in r.out.splitlines() if l.startswith("L ")}
    for n, (l, v) in enumerate(ok + [("", "")]):
        t = (v[:-1] if v.endswith("\0") else v).encode()
        want = [str(len(t)), t.hex(), str(len(t)), "true"]
        if got.get(n) != want:
            return "literal-value", f"c!({l}) reads back as (strlen, text, length, NUL at the end) {got.get(n)} instead of {want}"
    if r.returncode:
        return "literal-value", f"exit {r.returncode}: {r.err[:500]}"
    return None


def check(ctx):
    tc = progbuild.Toolchain(ctx)
    tc.lib("debug")
    per, n = 40, (120 if ctx.thorough else 16)
    sets = []
    for k in range(n):
        r = random.Random(f"{ctx.seed}-lit-{k}")
        sets.append([literal(r) for _ in range(per)])
    wd = os.path.join(ctx.work, "lit")

    def go(x):
        d = os.path.join(wd, str(x[0]))
        f = examine(tc, x[1], d)
        shutil.rmtree(d, ignore_errors=True)
        return f
    rs = progbuild.parallel(go, list(enumerate(sets)), until=lambda f: f and f[0] not in ctx.known)
    out = dict(evaluations=0, rule=RULE, samples=[], labels={}, known={}, violations=[], assumptions=[])
    keys = set()
    for k, f in enumerate(rs):
        out["evaluations"] += per
        if f is None:
            keys |= {l for l, v in sets[k] if not v.isascii() or "\\" in l or "\0" in v}
            for l, v in sets[k]:
                w = "c! literals " + ("rejected" if not good(v) else "with a trailing NUL" if v.endswith("\0") else "accepted")
                out["labels"][w] = out["labels"].get(w, 0) + 1
        elif f[0] in ctx.known:
            out["known"].setdefault(f[0], dict(count=0, msg=f[1]))["count"] += 1
        elif not out["violations"]:
            lits, msg = sets[k], f[1]
            while len(lits) > 1:
                parts = [lits[:len(lits) // 2], lits[len(lits) // 2:]]
                r2 = [go((j, p)) for j, p in enumerate(parts)]
                hit = next((j for j, x in enumerate(r2) if x and x[0] == f[0]), None)
                if hit is None:
                    break
                lits, msg = parts[hit], r2[hit][1]
            rp = os.path.join(ctx.replays, f"{ctx.pid}-{ctx.seed}.literals.json")
            with open(rp, "w") as fo:
                json.dump(dict(property=ctx.pid, literals=lits, message=msg), fo, indent=1)
            out["violations"].append(dict(sig=f[0], msg=msg, replay=rp))
    out["samples"] = [l for l, _ in sets[0][:6]]
    out["distinct_nontrivial"] = len(keys)
    return out


def replay(ctx, path):
    f = examine(progbuild.Toolchain(ctx), json.load(open(path))["literals"], os.path.join(ctx.work, "r"))
    print(f or "holds")
    return 1 if f and f[0] not in ctx.known else 0
