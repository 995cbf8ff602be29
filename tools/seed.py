#!/usr/bin/env python3
"""seed.py ID PROPERTY NEEDS BREAKS [FEATURES]: make /verif/seeded/ID of the diff in /tmp/seed/wt and of
/tmp/seed/ID.rs (a Rust demonstration), after trying the demonstration with and without the change."""
import json, os, shutil, subprocess, sys
i, prop, needs, breaks = sys.argv[1:5]
feats = sys.argv[5] if len(sys.argv) > 5 else ""
wt, d = "/tmp/seed/wt2", f"/verif/seeded/{i}"
diff = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE, check=True).stdout
assert diff
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "wb").write(diff)
if os.path.exists(f"/tmp/seed/{i}.rs"):
    shutil.copy(f"/tmp/seed/{i}.rs", d + "/main.rs")
    if os.path.exists(f"/tmp/seed/{i}.js"):
        shutil.copy(f"/tmp/seed/{i}.js", d + "/main.js")
        for x in ("napi", "napi-derive"):
            shutil.copytree(f"/verif/js/{x}", f"{d}/{x}", dirs_exist_ok=True)
        shutil.copy("/verif/js/addon/Cargo.lock", d)
    shutil.copy("/verif/tools/demo_js.sh" if os.path.exists(f"/tmp/seed/{i}.js") else "/verif/tools/demo_rust.sh", d + "/demo.sh")
    if os.path.exists(f"/tmp/seed/{i}.refused"):
        shutil.copy(f"/tmp/seed/{i}.refused", d + "/refused.txt")
        shutil.copy("/verif/tools/demo_refused.sh", d + "/demo.sh")
    if os.path.exists(f"/tmp/seed/{i}.c"):
        shutil.copy(f"/tmp/seed/{i}.c", d + "/driver.c")
    if os.path.exists(f"/tmp/seed/{i}.deps"):
        shutil.copy(f"/tmp/seed/{i}.deps", d + "/deps")
    if feats:
        open(d + "/features", "w").write(", ".join(f'"{f}"' for f in feats.split(",")))
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
b = subprocess.run(["bash", d + "/demo.sh"], cwd=wt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
print("unchanged:", a.returncode, a.stdout.decode()[-600:])
print("changed:", b.returncode, b.stdout.decode()[-600:])
ok = a.returncode == 0 and b.returncode != 0 and b.returncode != 2
if not ok:
    print(i, "NOT OK")
    shutil.rmtree(d)
    subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."], check=True)
    sys.exit(1)
# the repository's own tests, with the change applied to /repo for the time of the run
P = d + "/patch.diff"
subprocess.run(["git", "-C", "/repo", "apply", P], check=True)
try:
    r = subprocess.run("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed/t.json", shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        lost = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open("/tmp/seed/t.json"))["passed"])
    except OSError:
        lost = {"no results: " + r.stdout.decode()[-1500:]}
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
print("tests lost:", lost)
ok = ok and not lost
print(i, "OK" if ok else "NOT OK")
if not ok and "--keep" not in sys.argv:
    shutil.rmtree(d)
subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."], check=True)
