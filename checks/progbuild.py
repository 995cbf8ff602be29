"""Builds generated programs: cargo for the run-time crate, rustc per program, then its headers and facts."""
import traceback, concurrent.futures as cf, ctypes, json, os, shutil, subprocess, sys, time
from common import V, CheckError
import progen, progc

CALL_MAIN = "import ctypes, sys; sys.exit(getattr(ctypes.CDLL(sys.argv[1]), sys.argv[2])(sys.argv[3].encode()))"
GEN_MAIN = ("import ctypes, os, sys\n"
            "for a in sys.argv[1:]:\n"
            "    so, d = a.split('=')\n"
            "    sys.stderr.flush()\n"
            "    r = ctypes.CDLL(so).vh_gen(d.encode())\n"
            "    sys.stderr.flush()\n"
            "    sys.exit(r)\n")


class Built:
    """A built program in directory `d`."""


class Toolchain:
    def __init__(self, ctx):
        self.ctx = ctx
        self.libs = {}

    def lib(self, profile):
        """Paths of progrt's and safer_ffi's rlibs, built from /repo's working tree."""
        if profile not in self.libs:
            args = ["--message-format=json"] + (["--release"] if profile == "release" else [])
            r = self.ctx.cargo_build(os.path.join(V, "progrt"), *args)
            found = {}
            for l in r.out.splitlines():
                if l.startswith("{"):
                    j = json.loads(l)
                    if j.get("reason") == "compiler-artifact" and j["target"]["name"] in ("progrt", "safer_ffi", "safer-ffi"):
                        for f in j["filenames"]:
                            if f.endswith(".rlib"):
                                found[j["target"]["name"].replace("-", "_")] = f
            if set(found) != {"progrt", "safer_ffi"}:
                raise CheckError(f"no rlib of progrt or safer_ffi: {found}")
            found["deps"] = os.path.join(self.ctx.env["CARGO_TARGET_DIR"], profile, "deps")
            self.libs[profile] = found
        return self.libs[profile]

    def rustc(self, src, d, profile="debug", crate="p", kind="cdylib", timeout=300, pkg=None, flags=()):
        """Compiles `src`. -> path of the artefact, or None and the compiler's messages."""
        os.makedirs(d, exist_ok=True)
        lib = self.lib(profile)
        rs = os.path.join(d, "p.rs")
        with open(rs, "w") as f:
            f.write(src)
        out = os.path.join(d, crate + (".so" if kind == "cdylib" else ""))
        opt = ["-Copt-level=2", "-Cdebug-assertions=off"] if profile == "release" else ["-Copt-level=0", "-Cdebug-assertions=on"]
        r = self.ctx.run(["rustc", "--edition", "2021", "--crate-type", kind, "--crate-name", crate, "-Cdebuginfo=0", "-Ccodegen-units=4", *opt, *flags,
                          "--extern", "progrt=" + lib["progrt"], "--extern", "safer_ffi=" + lib["safer_ffi"],
                          "-L", "dependency=" + lib["deps"], rs, "-o", out],
                         env=dict(CARGO_CRATE_NAME=crate, CARGO_PKG_NAME=pkg or crate, CARGO_PKG_VERSION="0.1.0", CARGO_MANIFEST_DIR=d), check=False, timeout=timeout)
        return (out if r.returncode == 0 else None), r.err

    def headers(self, so, d, crate="p"):
        """Runs the program's header generation (in a process of its own). -> (ok, messages)"""
        r = self.ctx.run([sys.executable, "-c", GEN_MAIN, f"{so}={d}"], check=False, timeout=120,
                         env=dict(CARGO_CRATE_NAME=crate, CARGO_PKG_NAME=crate, RUST_BACKTRACE="0"))
        return r.returncode == 0, r.err + (f"\nexit code {r.returncode}" if r.returncode else "")

    def call(self, so, symbol, d, env, timeout=300):
        """Runs `symbol(d)` of a program in a process of its own, with `env` (None: unset) around it. -> CompletedProcess"""
        e = dict(RUST_BACKTRACE="0")
        e.update({k: v for k, v in env.items() if v is not None})
        return self.ctx.run(["env", *(x for k, v in env.items() if v is None for x in ("-u", k)), sys.executable, "-c", CALL_MAIN, so, symbol, d],
                            check=False, timeout=timeout, env=e)

    def build(self, prog, d, profile="debug", body="transport"):
        """-> Built with .ok, .stage ('rustc', 'headers', 'done'), .msg, .so, .facts, .dir"""
        b = Built()
        b.prog, b.dir, b.profile = prog, d, profile
        src = prog.rust(body, progc.CGen(prog, None).rust_extra())
        b.so, b.msg = self.rustc(src, d, profile)
        b.ok, b.stage, b.facts = False, "rustc", None
        if b.so is None:
            return b
        b.stage = "headers"
        ok, b.msg = self.headers(b.so, d)
        if not ok:
            return b
        b.facts = json.load(open(os.path.join(d, "facts.json")))
        b.ok, b.stage = True, "done"
        return b


def parallel(f, xs, n=8, until=None):
    """f over xs in n threads; stops starting new ones after the first truthy `until(result)`. Results in order."""
    out = {}
    with cf.ThreadPoolExecutor(n) as ex:
        it = iter(enumerate(xs))
        pending = {}
        stop = False

        def feed():
            nonlocal stop
            while len(pending) < n and not stop:
                try:
                    k, x = next(it)
                except StopIteration:
                    stop = True
                    return
                pending[ex.submit(f, x)] = k
        feed()
        while pending:
            done, _ = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
            for d in done:
                k = pending.pop(d)
                out[k] = d.result()
                if until and until(out[k]):
                    stop = True
            feed()
    return [out[k] for k in sorted(out)]


def candidates(prog):
    """Smaller programs, biggest steps first."""
    items = prog.items
    fns = [i for i in items if i["kind"] == "fn"]
    mk = lambda its: progen.Program(json.loads(json.dumps(its)))
    # one function and what it needs
    if len(fns) > 1:
        for half in (fns[:len(fns) // 2], fns[len(fns) // 2:]):
            yield progen.without(mk(items), [i["name"] for i in half])
    for i in items:
        yield progen.without(mk(items), [i["name"]])
    for n, i in enumerate(items):
        def changed(**kw):
            its = json.loads(json.dumps(items))
            its[n].update(kw)
            return progen.Program(its)
        if i.get("docs"):
            yield changed(docs=[])
        if i.get("rename"):
            yield changed(rename=None)
        if i["kind"] == "fn":
            for k in range(len(i["args"])):
                yield changed(args=i["args"][:k] + i["args"][k + 1:])
                if len(i["args"][k]) > 2:
                    yield changed(args=i["args"][:k] + [i["args"][k][:2]] + i["args"][k + 1:])
            for flag in ("async", "unsafe", "abi"):
                if i.get(flag):
                    yield changed(**{flag: 0})
            if i["ret"] != ["unit"]:
                yield changed(ret=["unit"])
            for k, a in enumerate(i["args"]):
                for t in smaller(prog, a[1]):
                    yield changed(args=i["args"][:k] + [[a[0], t] + a[2:]] + i["args"][k + 1:])
            for t in smaller(prog, i["ret"]):
                yield changed(ret=t)
        if i["kind"] == "struct":
            if not i.get("generics") and len(i["fields"]) > 1:
                for k in range(len(i["fields"])):
                    fs = i["fields"][:k] + i["fields"][k + 1:]
                    if any(f[1][0] != "ph" for f in fs) and fs[0][1][0] != "ph":
                        yield changed(fields=fs)
            for k, f in enumerate(i["fields"]):
                if len(f) > 2 and f[2]:
                    yield changed(fields=i["fields"][:k] + [[f[0], f[1], []]] + i["fields"][k + 1:])
                for t in smaller(prog, f[1]):
                    yield changed(fields=i["fields"][:k] + [[f[0], t] + f[2:]] + i["fields"][k + 1:])
        if i["kind"] == "enum":
            for k in range(len(i["variants"])):
                if len(i["variants"]) > 1 and all(v[1] is not None for v in i["variants"][k + 1:]):
                    yield changed(variants=i["variants"][:k] + i["variants"][k + 1:])
            for k, v in enumerate(i["variants"]):
                if v[2]:
                    yield changed(variants=i["variants"][:k] + [[v[0], v[1], [], v[3]]] + i["variants"][k + 1:])
        if i["kind"] == "trait":
            for k in range(len(i["methods"])):
                if len(i["methods"]) > 1:
                    yield changed(methods=i["methods"][:k] + i["methods"][k + 1:])
        if i["kind"] == "newtype":
            for t in smaller(prog, i["inner"]):
                yield changed(inner=t)


def smaller(prog, t):
    """Simpler types, for shrinking."""
    out = []
    if t[0] in ("unit", "par", "ph"):
        return out
    if '["par"' not in progen.key(t):
        for p in prog.parts(t):
            if p[0] not in ("unit", "void", "op", "par", "ph", "erased"):
                out.append(p)
        if t[0] == "fn" or t[0] == "clo":
            for k in range(len(t[3])):
                out.append(t[:3] + [t[3][:k] + t[3][k + 1:]])
            if t[2] != ["unit"]:
                out.append(t[:2] + [["unit"]] + t[3:])
        if t[0] == "tup":
            for k in range(len(t[1])):
                if len(t[1]) > 1:
                    out.append(["tup", t[1][:k] + t[1][k + 1:]])
        if t[0] not in ("u8",):
            out.append(["u8"])
    return out


def shrink(prog, fails, seconds=90):
    """`fails(prog) -> message or None`. -> (program, message)"""
    t0 = time.time()
    best, msg, n = prog, None, 0
    again = True
    while again and time.time() - t0 < seconds:
        again = False
        cands = [c for c in candidates(best) if c.items]
        # in parallel, batches of 8; the first that fails is taken
        for k in range(0, len(cands), 8):
            if time.time() - t0 > seconds:
                break
            rs = parallel(lambda x: fails(x[1], x[0]), list(enumerate(cands[k:k + 8])))
            n += len(rs)
            hit = next((j for j, m in enumerate(rs) if m), None)
            if hit is not None:
                best, msg, again = cands[k + hit], rs[hit], True
                break
    return best, msg


# -------------------------------------------------------------------- a check over generated programs
class Sweep:
    """Runs `oracle(tc, built, opts) -> (findings [(sig, msg)], stats)` on generated programs.

    stats: evaluations, keys (set of distinct non-trivial things), labels {name: count}, sample.
    """

    def __init__(self, ctx, oracle, body="transport", crash_is_violation=True):
        self.ctx, self.oracle, self.body = ctx, oracle, body
        self.tc = Toolchain(ctx)

    def examine(self, prog, d, opts):
        """-> (status 'ok'|'rustc'|'bad', findings, stats)"""
        if os.path.isdir(d):
            shutil.rmtree(d)
        b = self.tc.build(prog, d, opts["profile"], opts.get("body", self.body))
        if b.stage == "rustc":
            errs = [l for l in b.msg.splitlines() if l.startswith("error")]
            return "rustc", [("does-not-compile", "rustc rejects the program: " + " | ".join(errs[:4])[:800])], {}
        if b.stage == "headers":
            return "bad", [("generation", "header generation failed: " + b.msg.strip()[-800:])], {}
        try:
            fs, st = self.oracle(self.tc, b, opts)
        except (LookupError, AttributeError, TypeError, AssertionError, ValueError):
            # what the program or its headers say has not the form that it has for every program of the correct library
            fs, st = [("not-understood", "the output is not of the expected form: " + traceback.format_exc()[-700:])], {}
        if opts.get("ambiguous"):  # see hdr_c.AMBIGUOUS
            fs = [("shared-name", m) for _, m in fs]
        return ("bad" if fs else "ok"), fs, st

    def run(self, specs, rule, shrink_s=100):
        """specs: [(prog, opts)]"""
        ctx = self.ctx
        for p in sorted({o["profile"] for _, o in specs}):
            self.tc.lib(p)
        wd = os.path.join(ctx.work, "p")

        def go(x):
            k, (prog, opts) = x
            d = os.path.join(wd, str(k))
            r = self.examine(prog, d, opts)
            shutil.rmtree(d, ignore_errors=True)
            return r

        def stop(r):
            return r[0] == "bad" and any(s not in ctx.known for s, _ in r[1])
        rs = parallel(go, list(enumerate(specs)), until=stop)
        nbad = sum(r[0] == "rustc" for r in rs)
        if nbad == len(rs) and nbad:
            raise CheckError("no generated program compiles: " + rs[0][1][0][1])
        out = dict(evaluations=0, rule=rule, samples=[], labels={}, known={}, violations=[], assumptions=[])
        keys = set()
        for k, (st, fs, stats) in enumerate(rs):
            out["evaluations"] += stats.get("evaluations", 0)
            keys |= stats.get("keys", set())
            for l, n in stats.get("labels", {}).items():
                out["labels"][l] = out["labels"].get(l, 0) + n
            if stats.get("sample") and len(out["samples"]) < 12:
                out["samples"].append(stats["sample"])
            new = []
            for s, m in fs:
                if s in ctx.known:
                    o = out["known"].setdefault(s, dict(count=0, msg=m))
                    o["count"] += 1
                else:
                    new.append((s, m))
            if new and not out["violations"]:
                prog, opts = specs[k]
                sig, msg = new[0]

                def fails(p, n):
                    d = os.path.join(ctx.work, "s", str(n % 8) + "_" + str(n // 8))
                    try:
                        st2, fs2, _ = self.examine(p, d, opts)
                    except Exception:  # of the smaller program: it is no example of this failure
                        return None
                    finally:
                        shutil.rmtree(d, ignore_errors=True)
                    return next((m for s, m in fs2 if s == sig), None)
                small, m2 = shrink(prog, fails, shrink_s)
                rp = os.path.join(ctx.replays, f"{ctx.pid}-{ctx.seed}.json")
                with open(rp, "w") as f:
                    json.dump(dict(property=ctx.pid, signature=sig, message=m2 or msg, opts=opts, items=small.items,
                                   rust=small.rust(opts.get("body", self.body), "")), f, indent=1)
                out["violations"].append(dict(sig=sig, msg=(m2 or msg) + f" [shrunk from {len(prog.items)} items to {len(small.items)}]", replay=rp))
        out["distinct_nontrivial"] = len(keys)
        out["labels"]["programs"] = len(rs)
        return out

    def replay(self, path):
        j = json.load(open(path))
        st, fs, _ = self.examine(progen.Program(j["items"]), os.path.join(self.ctx.work, "r"), j["opts"])
        for s, m in fs:
            print(f"{s}: {m}")
        bad = [s for s, _ in fs if s not in self.ctx.known]
        print("violated" if bad else "holds")
        return 1 if bad else 0


def tags(prog):
    """How often each type constructor occurs in the exported signatures and their parts."""
    o = {}
    for t in prog.used_types():
        o[t[0]] = o.get(t[0], 0) + 1
    return o
