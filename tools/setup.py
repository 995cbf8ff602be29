"""setup_cmd: checks that the offline toolchain the checks use is there (each check builds what it needs itself)."""
import shutil, subprocess, sys, os
need = ["cargo", "gcc", "g++", "clang", "clang++", "node"]
bad = [t for t in need if not shutil.which(t)]
env = dict(os.environ, RUSTUP_TOOLCHAIN="1.72.1")
r = subprocess.run(["rustc", "--version"], env=env, capture_output=True, text=True)
if r.returncode or "1.72.1" not in r.stdout: bad.append("rustc 1.72.1")
if not os.path.exists("/opt/veriftools/pyvenv/bin/python"): bad.append("pyvenv")
print("missing: " + ", ".join(bad) if bad else "setup ok")
sys.exit(1 if bad else 0)
