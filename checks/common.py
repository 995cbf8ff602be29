import json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


class CheckError(Exception):
    pass


def known_findings(pid):
    """signature -> description, from the committed file. `fixed:` lines suppress nothing."""
    out = {}
    for l in open(os.path.join(V, "KNOWN_FINDINGS")):
        m = re.match(r"known: property=(\S+) signature=(\S+) (.*)", l)
        if m and m[1] == pid:
            out[m[2]] = m[3].strip()
    return out


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.work = os.path.join(V, ".work", pid)
        if os.path.isdir(self.work):
            shutil.rmtree(self.work)
        os.makedirs(self.work)
        self.replays = os.path.join(V, ".work", "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.env = dict(os.environ)
        self.env.update(RUSTUP_TOOLCHAIN="1.72.1", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
                        CARGO_TARGET_DIR=os.path.join(V, "target"), CARGO_INCREMENTAL="0")
        for k in ("RUSTC_BOOTSTRAP", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUST_BACKTRACE"):
            self.env.pop(k, None)
        self.known = known_findings(pid)
        self.thorough = tier == "thorough"

    def run(self, cmd, cwd=None, timeout=600, check=True, env=None, stdin=None):
        e = dict(self.env)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=cwd, env=e, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError(f"time-out ({timeout} s): {' '.join(map(str, cmd))}")
        r.out, r.err = r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
        if check and r.returncode != 0:
            raise CheckError(f"exit {r.returncode}: {' '.join(map(str, cmd))}\n{r.out[-3000:]}\n{r.err[-6000:]}")
        return r

    def cargo_build(self, cwd, *args, timeout=840, env=None):
        return self.run(["cargo", "build", "--offline", *args], cwd=cwd, timeout=timeout, env=env)

    # ---- the `vh` harness
    def vh(self, profile="debug", features=(), target="target"):
        d = os.path.join(V, "harness")
        env = {"CARGO_TARGET_DIR": os.path.join(V, target)}
        family = {"B": "bytes", "S01": "chars", "S02": "slices", "C": "closures", "D": "dyns", "F": "futs", "L": "layouts"}
        family = family.get(self.pid) or family[self.pid[0]]
        args = (["--release"] if profile == "release" else []) + ["--features", ",".join((family, *features))]
        self.cargo_build(d, *args, env=env)
        return os.path.join(V, target, profile, "vh")

    def vh_run(self, exe, tag, hang_violates=False, case_hang=120, timeout=20000, seed_offset=0):
        out = os.path.join(self.work, tag + ".json")
        rp = os.path.join(self.replays, f"{self.pid}-{tag}.replay")
        r = self.run([exe, "run", self.pid, "--tier", self.tier, "--seed", str(self.seed + seed_offset), "--out", out,
                      "--work", os.path.join(self.work, tag), "--replay-out", rp, "--nshards", "8",
                      "--case-hang", str(case_hang), "--known", ",".join(self.known)], check=False, timeout=timeout)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            raise CheckError(f"harness run failed ({r.returncode}): {r.err[-3000:]}")
        j = json.load(open(out))
        v = j.pop("violation")
        j["violations"] = []
        if v:
            if v["sig"] == "hang" and not hang_violates:
                raise CheckError(f"a case did not finish ({v['msg']}); choices in {v['replay']}")
            j["violations"].append(dict(sig=f"{v['test']}:{v['sig']}", msg=f"[{tag} build] {v['msg']}", replay=v["replay"]))
        j["labels"] = {f"{tag}/{k}": n for k, n in j["labels"].items()}
        j["samples"] = [f"[{tag}] {s}" for s in j["samples"]]
        return j


def merge(rs):
    out = dict(evaluations=0, distinct_nontrivial=0, rule=rs[0]["rule"], samples=[], labels={}, known={}, violations=[],
               assumptions=[])
    for r in rs:
        out["evaluations"] += r["evaluations"]
        out["distinct_nontrivial"] += r["distinct_nontrivial"]
        if r["rule"] != rs[0]["rule"] and r["rule"] not in out["rule"]:
            out["rule"] += "; " + r["rule"]
        for k, n in r.get("labels", {}).items():
            out["labels"][k] = out["labels"].get(k, 0) + n
        for k, n in r.get("known", {}).items():
            o = out["known"].setdefault(k, dict(count=0, msg=n["msg"]))
            o["count"] += n["count"]
        out["violations"] += r["violations"]
        out["assumptions"] += [a for a in r.get("assumptions", []) if a not in out["assumptions"]]
    # a few samples of each part
    k = max(2, 12 // len(rs))
    for r in rs:
        out["samples"] += r["samples"][:k]
    return out
