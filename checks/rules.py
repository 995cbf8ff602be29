"""Generated items, each of which rustc has to accept or to refuse (R01, R02).

An item is a dict: src (the text of a module), ok (expected verdict), key, why, and phase: where a refusal is
expected ('expand', 'type', 'borrow'); it only decides which items are compiled together.
"""
import json, os, random, re, shutil
from common import V, CheckError
from progbuild import Toolchain, parallel

HEAD = "#![allow(warnings)]\nextern crate safer_ffi;\nuse ::safer_ffi::prelude::*;\n"
MOD = "use super::*;\nuse ::safer_ffi::prelude::*;\n"


def blocks(items, head):
    """-> source, [(first line, last line)] of each item."""
    head = HEAD + head.strip() + "\n"
    src, where, line = head, [], head.count("\n") + 1
    for k, it in enumerate(items):
        text = f"pub mod m{k} {{\n{MOD}{it['src'].strip()}\n}}\n"
        n = text.count("\n")
        where.append((line, line + n - 1))
        src += text
        line += n
    return src, where


def lines_of(span, name, out):
    if span["file_name"].endswith(name):
        out.append(span["line_start"])
    if span.get("expansion"):
        lines_of(span["expansion"]["span"], name, out)


class Rules:
    def __init__(self, ctx, head):
        self.ctx, self.tc, self.head = ctx, Toolchain(ctx), head
        self.tc.lib("debug")

    def compile(self, src, d):
        """-> [(lines, code, message)] of the errors, whether it compiles"""
        so, err = self.tc.rustc(src, d, flags=("--emit=metadata", "--error-format=json"))
        errs = []
        for l in err.splitlines():
            if not l.startswith("{"):
                if "panicked" in l:
                    errs.append(([], "ICE", l))
                continue
            j = json.loads(l)
            if j.get("level") not in ("error", "error: internal compiler error"):
                continue
            ls = []
            for s in j["spans"]:
                if s["is_primary"]:
                    lines_of(s, "p.rs", ls)
            errs.append((ls, (j.get("code") or {}).get("code"), j["message"]))
        if so is None and not errs:
            raise CheckError("rustc fails without an error: " + err[-2000:])
        return errs, so is not None

    def verdicts(self, items, d):
        """What rustc says of each item: None (accepted) or (code, message)."""
        src, where = blocks(items, self.head)
        errs, ok = self.compile(src, d)
        out = [None] * len(items)
        for ls, code, msg in errs:
            for k, (a, b) in enumerate(where):
                if out[k] is None and any(a <= l <= b for l in ls):
                    out[k] = (code, msg)
        for it, v in zip(items, out):
            if v and not it["ok"] and v[0] is None and re.match("expected one of `|expected .*, found `", v[1]):
                raise CheckError(f"not Rust: {it['src']}: {v[1]}")
        shutil.rmtree(d, ignore_errors=True)
        return out, ok

    def judge(self, items, batch=16):
        """-> [(item, verdict)] for the items whose verdict is not the expected one"""
        groups = {}
        for it in items:
            groups.setdefault(("ok",) if it["ok"] else (it["phase"],), []).append(it)
        jobs = [(g[k:k + batch]) for g in groups.values() for k in range(0, len(g), batch)]

        def one(x):
            k, its = x
            d = os.path.join(self.ctx.work, f"b{k}")
            v, ok = self.verdicts(its, d)
            wrong, again = [], []
            for it, r in zip(its, v):
                if it["ok"]:
                    if not ok:
                        again.append(it)
                elif r is None:
                    again.append(it)
            for j, it in enumerate(again):  # alone: nothing of another item in the way
                v, ok = self.verdicts([it], os.path.join(self.ctx.work, f"b{k}_{j}"))
                if ok != it["ok"]:
                    wrong.append((it, v[0]))
            return wrong
        return [w for ws in parallel(one, list(enumerate(jobs))) for w in ws]


def run(ctx, items, rule, head):
    R = Rules(ctx, head)
    uniq, seen = [], set()
    for it in items:
        if it["src"] not in seen:
            seen.add(it["src"])
            uniq.append(it)
    wrong = R.judge(uniq)
    if wrong and len(wrong) == len(uniq):
        raise CheckError("no generated item gets the expected verdict: " + str(wrong[0])[:1500])
    out = dict(evaluations=len(uniq), distinct_nontrivial=len({it["key"] for it in uniq}), rule=rule, samples=[], labels={}, known={}, violations=[],
               assumptions=[])
    for it in uniq:
        for l in ("to be accepted" if it["ok"] else "to be refused", it["group"]):
            out["labels"][l] = out["labels"].get(l, 0) + 1
    rnd = random.Random(7)
    out["samples"] = [("accepted: " if it["ok"] else "refused: ") + re.sub(r"\s+", " ", it["src"])[:260] for it in rnd.sample(uniq, min(12, len(uniq)))]
    for it, v in wrong:
        sig = it["group"].replace(" ", "-") + (":refused" if it["ok"] else ":accepted")
        msg = (f"refused although {it['why']}: {v and v[1]}" if it["ok"] else f"accepted although {it['why']}")
        if sig in ctx.known:
            out["known"].setdefault(sig, dict(count=0, msg=msg))["count"] += 1
        elif not out["violations"] or len(it["src"]) < len(out["violations"][0]["item"]["src"]):
            out["violations"] = [dict(sig=sig, msg=msg, item=it)]
    for v in out["violations"]:  # the shortest of the items that fail: what it consists of was generated independently of the rest
        it = v.pop("item")
        small = shrink(R, it)
        rp = os.path.join(ctx.replays, f"{ctx.pid}-{ctx.seed}.json")
        with open(rp, "w") as f:
            json.dump(dict(property=ctx.pid, signature=v["sig"], message=v["msg"], **small), f, indent=1)
        v["replay"] = rp
        v["msg"] += " -- " + re.sub(r"\s+", " ", small["src"])[:400]
    return out


def shrink(R, it, rounds=40):
    """it["smaller"]() yields simpler items of the same group; the first that is judged wrongly in the same way is taken."""
    again = True
    while again and rounds > 0:
        again = False
        for c in (it.get("smaller") or (lambda: []))():
            rounds -= 1
            if rounds < 0:
                break
            if c["ok"] == it["ok"] and R.verdicts([c], os.path.join(R.ctx.work, "shrink"))[1] != c["ok"]:
                it, again = c, True
                break
    return {k: v for k, v in it.items() if k != "smaller"}


def replay(ctx, path, head):
    j = json.load(open(path))
    R = Rules(ctx, head)
    v, ok = R.verdicts([j], os.path.join(ctx.work, "r"))
    print(j["src"])
    print("rustc accepts it" if ok else f"rustc refuses it: {v[0]}", "-- expected:", "accepted" if j["ok"] else "refused", "--", j["why"])
    bad = ok != j["ok"]
    print("violated" if bad else "holds")
    return 1 if bad else 0
