#!/usr/bin/env python3
"""tools/mkseed.py FILE.py...: each FILE defines seed(id, property, needs, what, edits, demo_cpp[, libs]) calls."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("SEED_REPO", "/repo")
made = []
def seed(id, prop, needs, what, edits, demo, demo_sh=None):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    assert not subprocess.check_output(["git", "-C", R, "status", "--short"])
    try:
        for f, old, new in edits:
            p = os.path.join(R, f)
            t = open(p).read()
            assert t.count(old) == 1, (id, f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(subprocess.check_output(["git", "-C", R, "diff"], text=True))
    finally:
        subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(demo_sh or open(os.path.join(V, "tools", "demo.sh.in")).read())
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(os.path.join(d, "meta.json"), "w"), indent=1)
    made.append(id)
for f in sys.argv[1:]:
    exec(open(f).read(), dict(seed=seed))
if made:
    subprocess.call([os.path.join(V, "tools", "seed.sh")] + made)
