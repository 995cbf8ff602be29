from common import *

COMMON_ASSUMPTIONS = [
    "x86_64-unknown-linux-gnu, rustc 1.72.1 (the toolchain the repository builds with here)",
]


def vh_check(profiles=("debug", "release"), **kw):
    def check(ctx):
        rs = []
        for i, p in enumerate(profiles):
            r = ctx.vh_run(ctx.vh(p), p, seed_offset=1000003 * i, **kw)
            rs.append(r)
            if r["violations"]:
                break
        return merge_profiles(rs)
    return check


def merge_profiles(rs):
    m = merge(rs)
    if len(rs) > 1:
        m["rule"] += "; cases differ between the builds (debug: overflow and debug assertions on; release: off) and are summed"
    return m


def vh_replay(profile="debug"):
    def replay(ctx, path):
        prof = "release" if "-release." in path else "debug"
        return ctx.run([ctx.vh(prof), "replay", path], check=False).returncode
    return replay


CHECKS, REPLAY = {}, {}
for _p in ("B01", "B02", "B03", "B04", "B05", "S01", "S02", "C01", "C02", "D01", "D02", "L01", "L03"):
    CHECKS[_p], REPLAY[_p] = vh_check(hang_violates=True, case_hang=100), vh_replay()



def stabby_check(profiles=("debug", "release")):
    def check(ctx):
        rs = []
        for i, p in enumerate(profiles):
            rs.append(ctx.vh_run(ctx.vh(p, features=("stabby",), target="target-stabby"), p, seed_offset=1000003 * i,
                                hang_violates=True, case_hang=100))
            if rs[-1]["violations"]:
                break
        return merge_profiles(rs)
    return check


def stabby_replay(ctx, path):
    prof = "release" if "-release." in path else "debug"
    return ctx.run([ctx.vh(prof, features=("stabby",), target="target-stabby"), "replay", path], check=False).returncode


CHECKS["B06"], REPLAY["B06"] = stabby_check(), stabby_replay
CHECKS["F01"], REPLAY["F01"] = vh_check(hang_violates=True, case_hang=60), vh_replay()

import s01_lit
_s01, _s01_replay = CHECKS["S01"], REPLAY["S01"]


def s01(ctx):
    r = s01_lit.check(ctx)
    return r if r["violations"] else merge([_s01(ctx), r])


CHECKS["S01"] = s01
REPLAY["S01"] = lambda ctx, path: s01_lit.replay(ctx, path) if path.endswith(".literals.json") else _s01_replay(ctx, path)

import e01
CHECKS["E01"], REPLAY["E01"] = e01.check, e01.replay

import hdr_c
CHECKS["H01"], REPLAY["H01"] = hdr_c.check_h01, hdr_c.replay_h01
CHECKS["L02"], REPLAY["L02"] = hdr_c.check_l02, hdr_c.replay_l02

import hdr_x, n01
CHECKS["H02"], REPLAY["H02"] = hdr_x.check_h02, hdr_x.replay_h02
CHECKS["H03"], REPLAY["H03"] = hdr_x.check_h03, hdr_x.replay_h03
CHECKS["N01"], REPLAY["N01"] = n01.check, n01.replay

import e02
CHECKS["E02"], REPLAY["E02"] = e02.check, e02.replay

import h04
CHECKS["H04"], REPLAY["H04"] = h04.check, h04.replay

import j01
for _p in ("J01", "J02"):
    CHECKS[_p], REPLAY[_p] = j01.check, j01.replay

import r01, r02
CHECKS["R01"], REPLAY["R01"] = r01.check, r01.replay
CHECKS["R02"], REPLAY["R02"] = r02.check, r02.replay
