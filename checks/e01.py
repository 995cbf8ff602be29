"""E01: values cross between C, through the generated header, and Rust unchanged."""
import os
from common import CheckError
import progen, progc, progbuild

RULE = ("evaluation = one call from C of an exported function of a generated program, with fresh values (each also exercises the callables inside). "
        "Non-trivial and distinct = a distinct exported signature (with the definitions of the types it names) with a parameter or result that is not a "
        "plain number, called at least 10 times")


def oracle(tc, b, opts):
    d = b.dir
    cg = progc.CGen(b.prog, b.facts)
    with open(os.path.join(d, "driver.c"), "w") as f:
        f.write(cg.driver())
    exe = os.path.join(d, "driver")
    r = tc.ctx.run([opts["cc"], "-std=gnu11", "-w", *opts["cflags"], "-I", d, os.path.join(d, "driver.c"), "-o", exe, b.so, "-Wl,-rpath," + d],
                   check=False, timeout=200)
    if r.returncode:
        errs = [l for l in r.err.splitlines() if "error" in l]
        return [("c-compile", "a C program that uses the generated header as documented does not compile: " + " | ".join(errs[:3])[:800])], {}
    try:
        r = tc.ctx.run([exe, str(opts["seed"]), str(opts["iters"])], check=False, timeout=200, cwd=d, env=dict(RUST_BACKTRACE="0"))
    except CheckError as e:
        return [("transport", "hangs: " + str(e))], {}
    done = next((l for l in r.out.splitlines() if l.startswith("DONE")), None)
    if done and r.returncode == 0:
        w = done.split()
        keys = set()
        for f in cg.functions():
            ts = [a[1] for a in f["args"]] + [f["ret"]]
            if any(t[0] not in progen.PRIMS + ["unit"] for t in ts):
                names = {t[1] for t in b.prog.closure_of(ts) if len(t) > 1 and isinstance(t[1], str)}
                keys.add(hash(progen.key([ts] + [b.prog.by_name[n] for n in sorted(names) if n in b.prog.by_name])))
        lab = {"type:" + k: n for k, n in progbuild.tags(b.prog).items()}
        lab["crossings of the boundary compared"] = int(w[3])
        f0 = next(iter(cg.functions()), None)
        return [], dict(evaluations=int(w[1]), keys=keys, labels=lab,
                        sample=f0 and f"[{opts['profile']}, {opts['cc']} {' '.join(opts['cflags'])}] fn({', '.join(b.prog.rs(a[1]) for a in f0['args'])}) -> {b.prog.rs(f0['ret'])}: {done}")
    ms = [l for l in r.out.splitlines() if l.startswith(("MISMATCH", "CALL"))]
    if any("harness:" in m for m in ms):
        raise CheckError("; ".join(ms)[:2000])
    what = "; ".join(x[:600] for x in ms) or (r.out[-300:] + r.err[-900:]).strip()
    return [("transport", f"exit {r.returncode}: {what}")], {}


COMPILERS = [("gcc", ["-O2"]), ("clang", ["-O1"]), ("gcc", ["-O0"]), ("clang", ["-O2"])]


def specs(ctx):
    n = 700 if ctx.thorough else 88
    out = [(p, dict(profile="debug", cc="gcc", cflags=["-O1"], seed=ctx.seed, iters=60 if ctx.thorough else 40)) for p in progen.catalogue(ctx.seed)]
    for k in range(n):
        s = ctx.seed * 1_000_003 + k
        bias = [{}, {}, dict(maxdepth=2, fns=14, structs=6), dict(maxdepth=4, reach=2500), dict(callables=0, fns=12), dict(structs=0, newtypes=0, traits=0, opaques=0, fns=16, consts=0)][k % 6]
        cc, fl = COMPILERS[k % 4]
        out.append((progen.generate(s, bias), dict(profile="release" if k % 4 == 3 else "debug", cc=cc, cflags=fl, seed=s, iters=60 if ctx.thorough else 40)))
    return out


def check(ctx):
    return progbuild.Sweep(ctx, oracle).run(specs(ctx), RULE)


def replay(ctx, path):
    return progbuild.Sweep(ctx, oracle).replay(path)
