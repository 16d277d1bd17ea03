"""mkseed.py SPEC.py: writes seeded/<id>/ from a spec file defining id, prop, needs, breaks, edits=[(file, old, new)], demo (Rust source).
The shared demo runner and recording constraint system come from tools/seedlib."""
import sys, os, json, subprocess, shutil, tempfile
g = {}
exec(open(sys.argv[1]).read(), g)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(ROOT, "seeded", g["id"])
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="mkseed")
subprocess.check_call(["git", "clone", "-q", "/repo", w])
for f, old, new in g["edits"]:
    p = os.path.join(w, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.check_output(["git", "-C", w, "diff"]).decode()
shutil.rmtree(w)
open(os.path.join(d, "patch.diff"), "w").write(diff)
open(os.path.join(d, "demo.rs"), "w").write(g["demo"].lstrip())
shutil.copy(os.path.join(ROOT, "tools", "seedlib", "demo_in.sh" if "mod" in g else "demo.sh"), os.path.join(d, "demo.sh"))
if "mod" in g: open(os.path.join(d, "demo.mod"), "w").write(g["mod"] + "\n")
if "rec;" in g["demo"]: shutil.copy(os.path.join(ROOT, "tools", "seedlib", "rec.rs"), d)
json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
