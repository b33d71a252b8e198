"""mkpatch(id, property, needs, breaks, [(file, old, new), ...], demo): writes /verif/seeded/<id>."""
import json, os, subprocess
V = "/verif"; R = "/repo"
def mkpatch(sid, prop, needs, breaks, edits, demo, demosh=None):
    d = os.path.join(V, "seeded", sid); os.makedirs(d, exist_ok=True)
    assert subprocess.run(["git", "-C", R, "diff", "--quiet"]).returncode == 0, "/repo dirty"
    try:
        for f, old, new in edits:
            p = os.path.join(R, f); s = open(p).read()
            assert s.count(old) == 1, "%s: %d matches in %s for %r" % (sid, s.count(old), f, old)
            open(p, "w").write(s.replace(old, new))
        out = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE).stdout
    finally:
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    open(os.path.join(d, "patch.diff"), "wb").write(out)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if demo: open(os.path.join(d, "demo.cpp"), "w").write(demo)
    if demosh: open(os.path.join(d, "demo.sh"), "w").write(demosh); os.chmod(os.path.join(d, "demo.sh"), 0o755)
