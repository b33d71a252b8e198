#!/usr/bin/env python3
"""newseed.py ID [--nocheck]: confirm /verif/seeded/ID (patch.diff, demo.cpp, meta.json present): adds the demo's helper files, applies the patch to /repo,
builds, runs the stable tests, the demo with and without, and the property's check; restores /repo."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"
sid = sys.argv[1]; d = os.path.join(V, "seeded", sid); demo = os.path.join(V, "tools", "demo")
meta = json.load(open(os.path.join(d, "meta.json")))
shutil.copy(os.path.join(demo, "demo_stubs.cpp"), d)
if not os.path.exists(os.path.join(d, "demo.sh")): shutil.copy(os.path.join(demo, "demo.sh"), d)
src = open(os.path.join(d, "demo.cpp")).read() if os.path.exists(os.path.join(d, "demo.cpp")) else ""
if "demo_core.h" in src: shutil.copy(os.path.join(demo, "demo_core.h"), d)
if "demo_sql.h" in src or "demo_core.h" in src:
    for f in ("demo_sql.h", "demo_rt.cpp"): shutil.copy(os.path.join(demo, f), d)
    for f in ("shim.cpp", "shim.h", "mc.h", "rt.h"): shutil.copy(os.path.join(V, "lib", f), d)
def run(c, **k): return subprocess.run(c, **k)
def build():
    r = run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: print(r.stdout.decode()[-3000:])
    return r.returncode
def dm(): 
    r = run(["bash", os.path.join(d, "demo.sh")], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT); return r.returncode, r.stdout.decode("utf8", "replace")[-600:]
assert run(["git", "-C", R, "diff", "--quiet"]).returncode == 0, "/repo is dirty"
ok = True
build(); rc, o = dm(); print("demo on unchanged tree:", rc, o if rc else ""); ok &= rc == 0
assert run(["git", "-C", R, "apply", os.path.join(d, "patch.diff")]).returncode == 0
try:
    b = build(); print("build with patch:", b); ok &= b == 0
    if b == 0:
        rc, o = dm(); print("demo with patch:", rc, o); ok &= rc not in (0, 3)
        run(["bash", "/opt/vp/test.sh", "/tmp/seed_tests.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        t = json.load(open("/tmp/seed_tests.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        def names(x): return set(x.get("passed", x.get("pass", x.get("stable", [])))) if isinstance(x, dict) else set(x)
        stable = set(base.get("stable", base.get("passed", base.get("tests", [])))) if isinstance(base, dict) else set(base)
        missing = stable - names(t); print("stable tests now failing:", sorted(missing)[:5], "of", len(stable)); ok &= not missing
        if "--nocheck" not in sys.argv:
            r = run([sys.executable, "run.py", meta["property"]], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_TIER="quick"))
            print("check:", r.returncode, r.stdout.decode("utf8", "replace")[-700:])
            if r.returncode != 1: print("NOT CAUGHT")
finally:
    run(["git", "-C", R, "checkout", "--", "."]); build()
print("SEED", sid, "OK" if ok else "BAD")
