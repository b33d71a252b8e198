#!/usr/bin/env python3
"""Runs one check:  run.py <property> [--tier quick|thorough] [--replay FILE] [--keep]
Builds what the check needs from /repo's current working tree, explores, writes evidence/<property>.json."""
import sys, os, subprocess, json, time, hashlib, glob, shutil, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
from checks import CHECKS, GROUPS

def sh(cmd, **k):
    return subprocess.run(cmd, **k)

CXX = "clang++-18"
BASE = ["-w", "-fPIE", "-DSQLITE_ENABLE_NORMALIZE", "-I" + REPO, "-I" + REPO + "/mbedtls/include"]
TSAN_ALL = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]
TSAN_ATOMIC = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-mllvm", "-tsan-instrument-memory-accesses=0", "-mllvm", "-tsan-instrument-memintrinsics=0"]
M3 = "/opt/vp/missing/mbedtls3.h"

def flags_for(src, mode, opt):
    c = src.endswith(".c")
    f = ["clang-18"] if c else [CXX, "-std=c++20"]
    f += BASE + [opt, "-g1" if os.environ.get("VERIF_DEBUG") else "-g0"]
    if not c and os.path.exists(M3): f += ["-include", M3]
    if mode == "race": f += TSAN_ALL
    elif mode == "atomic": f += TSAN_ATOMIC
    if os.path.basename(src) in ("BedrockServer.cpp", "main.cpp", "MySQL.cpp"): f += ["-DGIT_REVISION=0123456789"]
    return f

def compile_one(job):
    src, obj, fl = job
    if os.path.exists(obj): return None
    tmp = obj + ".tmp%d" % os.getpid()
    r = sh(fl + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=REPO)
    if r.returncode: return "%s\n%s" % (" ".join(fl + ["-c", src]), r.stdout)
    os.rename(tmp, obj)
    return None

def tree_key():
    """Hash of everything of /repo and /verif that can influence a build."""
    h = hashlib.sha256()
    files = []
    for base in (REPO, REPO + "/libstuff", REPO + "/sqlitecluster", REPO + "/plugins"):
        files += sorted(glob.glob(base + "/*.cpp") + glob.glob(base + "/*.c") + glob.glob(base + "/*.h"))
    files += sorted(glob.glob(V + "/lib/*.h") + glob.glob(V + "/harness/*.h"))
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(open(V + "/run.py", "rb").read())
    return h.hexdigest()[:20]

def build(prop, spec):
    key = tree_key()
    root = os.path.join(V, "build"); os.makedirs(root, exist_ok=True)
    d = os.path.join(root, key)
    for o in os.listdir(root):   # caches of other trees are useless
        if o != key and len(o) == 20 and os.path.isdir(os.path.join(root, o)) and time.time() - os.path.getmtime(os.path.join(root, o)) > 3600:
            shutil.rmtree(os.path.join(root, o), ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    mode, opt = spec.get("mode", "plain"), spec.get("opt", "-O0")
    jobs, objs = [], []
    repo_srcs = []
    for s in spec.get("repo", []):
        if s.startswith("@"):
            for g in GROUPS[s[1:]]:
                m = sorted(glob.glob(os.path.join(REPO, g)))
                repo_srcs += m
        elif s.startswith("-"):
            repo_srcs = [x for x in repo_srcs if x != os.path.join(REPO, s[1:])]
        else: repo_srcs.append(os.path.join(REPO, s))
    def add(src, mode, opt, extra=()):
        fl = flags_for(src, mode, opt) + list(extra)
        n = hashlib.sha256((" ".join(fl) + src + (hashlib.sha256(open(src, "rb").read()).hexdigest())).encode()).hexdigest()[:16]
        obj = os.path.join(d, os.path.basename(src) + "." + n + ".o")
        jobs.append((src, obj, fl)); objs.append(obj)
    rf = spec.get("race_files")    # only these get memory-access instrumentation, the rest just the atomics
    for s in repo_srcs: add(s, "atomic" if mode == "race" and rf and os.path.basename(s) not in rf else mode, opt, spec.get("defs", ()))
    repo_objs = list(objs); objs.clear()
    for s in spec["harness"]: add(os.path.join(V, "harness", s), spec.get("hmode", mode), spec.get("hopt", "-O1"), spec.get("defs", ()))
    for s in ["mc.cpp"] + spec.get("lib", []): add(os.path.join(V, "lib", s), "plain", "-O2", spec.get("defs", ()))
    with ThreadPoolExecutor(8) as ex:
        for err in ex.map(compile_one, sorted(jobs, key=lambda j: -os.path.getsize(j[0]))):
            if err: print(err, file=sys.stderr); print("build failed", file=sys.stderr); sys.exit(2)
    exe = os.path.join(d, "check_" + prop)
    arch = []
    if repo_objs:
        lib = exe + ".a"
        if os.path.exists(lib): os.remove(lib)
        r = sh(["ar", "rcs", lib] + repo_objs)
        if r.returncode: print("ar failed", file=sys.stderr); sys.exit(2)
        arch = ["-Wl,--start-group", lib, "-Wl,--end-group"]
    r = sh([CXX, "-rdynamic", "-pie", "-o", exe + ".tmp"] + objs + arch + spec.get("link", []) + ["-ldl", "-lpthread", "-lm"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: print(r.stdout[:6000], file=sys.stderr); print("link failed", file=sys.stderr); sys.exit(2)
    os.rename(exe + ".tmp", exe)
    return exe

def main():
    a = sys.argv[1:]
    prop = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); replay = None; only = None; budget = None
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 1
        elif a[i] == "--replay": replay = a[i + 1]; i += 1
        elif a[i] == "--only": only = a[i + 1]; i += 1
        elif a[i] == "--budget": budget = a[i + 1]; i += 1
        elif a[i] == "--build-only": replay = "BUILD"
        i += 1
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[prop]
    t0 = time.time()
    exe = build(prop, spec)
    tb = time.time() - t0
    scratch = "/tmp/verif_%s_%d" % (prop, os.getpid())
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, VERIF_SCRATCH=scratch, LC_ALL="C.UTF-8", VERIF_REPO=REPO)
    rd = os.path.join(V, "build", "replays"); os.makedirs(rd, exist_ok=True)
    try:
        if replay == "BUILD": print(exe, "%.1f" % tb); return 0
        if replay:
            return sh([exe, "--property", prop, "--tier", tier, "--replay", replay], env=env).returncode
        out = os.path.join(scratch, "out.json")
        b = budget or str(spec.get("budget", {}).get(tier, 150 if tier == "quick" else 600))
        cmd = [exe, "--property", prop, "--tier", tier, "--out", out, "--replay-dir", rd, "--known", os.path.join(V, "known_findings.txt"), "--workers", str(spec.get("workers", 8)), "--budget", b]
        if only: cmd += ["--only", only]
        err = open(os.path.join(scratch, "stderr"), "wb")
        r = sh(cmd, env=env, stderr=err, stdout=subprocess.DEVNULL)
        err.close()
        tail = open(os.path.join(scratch, "stderr"), "rb").read()[-4000:].decode("utf8", "replace")
        if not os.path.exists(out):
            print(tail, file=sys.stderr); print("check %s gave no result (exit %s)" % (prop, r.returncode), file=sys.stderr); return 2
        o = json.load(open(out))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    level = spec.get("level", "model_checking")
    cov = {"samples": o["samples"] or ["(none)"], "exhaustive": bool(o["exhaustive"]), "scenarios": o["scenarios"], "distinct_outcomes": o["outcomes"],
           "rule": o["rule"], "choice_tree_max_depth": o["max_choice_depth"], "determinism_replays": o["determinism_replays"], "build_s": round(tb, 1),
           "executions_with_deviations": o["with_deviations"], "deviation_bounds": o["bounds"], "work_items_started": o["next_job"], "work_items": o["jobs"], "per_scenario": [{"name": x["name"], "executions": x["executions"]} for x in o["per_scenario"]]}
    if os.environ.get("VERIF_VERBOSE"):
        for x in o["per_scenario"]: print("  %-50s %s %s" % (x["name"], x["executions"], x["cpu_s"]))
    if level == "model_checking":
        cov.update(states=o["states"], transitions=o["transitions"], traces_validated_against_impl=o["executions"], oracle_comparisons=o["compared"],
                   binding="the real code is the model: every explored execution ran /repo's compiled sources")
    else:
        cov.update(evaluations=o["executions"], distinct_nontrivial=o["states"], oracle_comparisons=o["compared"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": o["violations"]}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: executions=%d states=%d transitions=%d outcomes=%d exhaustive=%s build=%.1fs explore=%.1fs" % (prop, tier, o["executions"], o["states"], o["transitions"], o["outcomes"], o["exhaustive"], tb, o["wall_s"]))
    for k in o["known"]: print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if o["exit"] == 1:
        print(o["violation"][:3000])
        print("VIOLATION property=%s replay=%s" % (prop, o["replay"]))
        return 1
    if o["exit"] != 0:
        print(tail, file=sys.stderr); print("check %s: internal error" % prop, file=sys.stderr); return 2
    return 0

sys.exit(main())
