"""J01, J02: values and callbacks through the Node binding are those the Rust functions received and returned.

An addon (js/addon) of exported functions of every family is built from /repo with the `js` feature, and loaded by the real Node;
js/j01.js generates calls and judges them against its own model."""
import array, json, os, re, subprocess, time
from common import CheckError, V, merge

RULE = ("evaluation = one generated case: a sequence of calls through the binding. Non-trivial and distinct = at least two calls, or a call with an argument "
        "of another type or range than the parameter's, and a choice list no other case has")
CASES = {"J01": {"values": 32000, "strings": 24000, "pointers": 24000}, "J02": {"promises": 10000, "closures": 8000, "handles": 6000, "settings": 8, "waiting": 240}}
SHARDS = 8


def build(ctx, profile):
    d = os.path.join(V, "js", "addon")
    tgt = os.path.join(V, "target")
    ctx.cargo_build(d, *(["--release"] if profile == "release" else []), env={"CARGO_TARGET_DIR": tgt})
    out = os.path.join(ctx.work, profile + ".node")
    if os.path.exists(out):
        os.remove(out)
    os.link(os.path.join(tgt, profile, "libjs_addon.so"), out)
    return out


def js(ctx, addon, *args):
    return ["node", "--expose-gc", "--unhandled-rejections=strict", os.path.join(V, "js", "j01.js"), addon, *map(str, args)]


def env(ctx):
    return dict(ctx.env, RUST_BACKTRACE="0", NODE_OPTIONS="", UV_THREADPOOL_SIZE="4")


def case(ctx, addon, test, choices, name="case"):
    """-> (signature, message, choices used) of a violating case, or None"""
    p, st = os.path.join(ctx.work, name + ".json"), os.path.join(ctx.work, name + ".state")
    with open(p, "w") as f:
        json.dump(dict(choices=choices), f)
    if os.path.exists(st):
        os.remove(st)
    try:
        r = subprocess.run(js(ctx, addon, "case", test, p, st), env=env(ctx), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    except subprocess.TimeoutExpired:
        return "hang", "the case did not finish", choices
    out, err = r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
    if r.returncode in (0, 1) and out.strip().startswith("{"):
        j = json.loads(out.strip().split("\n")[-1])
        return None if not j["bad"] else (j["bad"]["sig"], j["bad"]["msg"], j["choices"])
    return ("crash", *died(r.returncode, err, st, choices))


def died(rc, err, state, choices):
    what = ""
    try:
        j = json.loads(open(state, errors="replace").read().split("\n")[0])
        what, choices = "; last call: " + j["what"], j["choices"]
    except (OSError, ValueError):
        pass
    lines = [l for l in err.split("\n") if re.search(r"panicked|Error|FATAL|heap|alloc", l) and "warm-up" not in l] or err.strip().split("\n")[-3:]
    return f"the process ended with {rc}{what}: " + " | ".join(lines)[:600], choices


def shrink(ctx, addon, test, sig, choices, budget=250):
    """Removes chunks of choices and lowers choices while the case fails in the same way."""
    best = choices
    msg = None
    end = time.time() + 120

    def fails(c):
        nonlocal best, msg, budget
        if budget <= 0 or c == best or time.time() > end:
            return False
        budget -= 1
        r = case(ctx, addon, test, c, "shrink")
        if r and r[0] == sig:
            best, msg = c, r[1]
            return True
        return False
    again = True
    while again and budget > 0 and time.time() < end:
        again = False
        n = len(best) // 2
        while n >= 1:
            i = 0
            while i + n <= len(best):
                if fails(best[:i] + best[i + n:]):
                    again = True
                else:
                    i += n
            n //= 2
        for i in range(len(best)):
            if i >= len(best):
                break
            for x in (0, best[i] // 2, best[i] - 1):
                if 0 <= x < best[i] and fails(best[:i] + [x] + best[i + 1:]):
                    again = True
                    break
    return best, msg


def check(ctx):
    rs = []
    for k, profile in enumerate(("debug", "release")):
        rs.append(run(ctx, build(ctx, profile), profile, k))
        if rs[-1]["violations"]:
            break
    return merge(rs)


def run(ctx, addon, profile, k):
    res = dict(evaluations=0, distinct_nontrivial=0, rule=RULE, samples=[], labels={}, known={}, violations=[], assumptions=[
        "real Node " + ctx.run(["node", "--version"]).out.strip() + " and the library's own binding code, over an implementation of the napi-rs 1 API made for this check: "
        "the fork of napi-rs the library names is not available offline; the WebAssembly variant of the binding is not run"])
    scale = 12 if ctx.thorough else 1
    procs = []
    for test, n in CASES[ctx.pid].items():
        for s in range(SHARDS):
            st = os.path.join(ctx.work, f"{profile}-{test}-{s}.state")
            procs.append((test, st, js(ctx, addon, "run", test, s, SHARDS, n if test == "settings" else n * scale, ctx.seed * 2 + k, st)))
    limit = 20000 if ctx.thorough else 400
    hashes = {t: set() for t in CASES[ctx.pid]}
    failures = []
    running = []
    todo = list(procs)
    while todo or running:
        while todo and len(running) < SHARDS and not failures:
            test, st, cmd = todo.pop(0)
            running.append((test, st, subprocess.Popen(cmd, env=env(ctx), stdout=open(st + ".out", "wb"), stderr=open(st + ".err", "wb"))))
        if failures:
            todo = []
        if not running:
            break
        test, st, p = running.pop(0)
        try:
            rc = p.wait(limit)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            failures.append((test, "hang", "the cases did not finish", died(0, "", st, [])[1]))
            continue
        out, err = open(st + ".out", errors="replace").read(), open(st + ".err", errors="replace").read()
        try:
            j = json.loads(out.strip().split("\n")[-1])
        except ValueError:
            j = None
        if rc == 0 and j:
            res["evaluations"] += j["evaluations"]
            for l, c in j["labels"].items():
                res["labels"][f"{profile}/{test}/{l}"] = res["labels"].get(f"{profile}/{test}/{l}", 0) + c
            if st.endswith("-0.state"):
                res["samples"] += [f"[{profile}] {test}: {x}" for x in j["samples"][-2:]]
            a = array.array("d")
            a.frombytes(open(st + ".hashes", "rb").read())
            hashes[test].update(a)
        elif rc == 1 and j and j.get("bad"):
            failures.append((test, j["bad"]["sig"], j["bad"]["msg"], j["choices"]))
        elif rc < 0 or rc in (1, 7, 134, 139):
            failures.append((test, "crash", *died(rc, err, st, [])))
        else:
            raise CheckError(f"js driver failed ({rc}): {err[-3000:]}")
    res["distinct_nontrivial"] = sum(map(len, hashes.values()))
    failures.sort(key=lambda f: (f[1] in ("hang", "crash"), f[0]))
    if failures:
        test, sig, msg, choices = failures[0]
        again = sig != "hang" and case(ctx, addon, test, choices)
        if again:
            small, m = shrink(ctx, addon, test, again[0], again[2])
            sig, choices, msg = again[0], small, m or again[1]
        rp = os.path.join(ctx.replays, f"{ctx.pid}-{profile}.replay")
        with open(rp, "w") as f:
            json.dump(dict(choices=choices, test=test, profile=profile, sig=sig, msg=msg), f)
        res["violations"].append(dict(sig=f"{test}:{sig}", msg=f"[{profile} build] {msg}", replay=rp))
    return res


def replay(ctx, path):
    j = json.load(open(path))
    r = case(ctx, build(ctx, j["profile"]), j["test"], j["choices"], "replay")
    print(f"{r[0]}: {r[1]}" if r else "the case holds")
    return 1 if r else 0
