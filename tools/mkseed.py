"""Development aid: mkseed.py SPEC.py writes seeded/<id>/ for every entry of SEEDS (list of dicts with id, property,
edits [(file, old, new)...], demo (python source), needs, breaks)."""
import json, os, runpy, subprocess, sys, tempfile, shutil
SH = """#!/bin/bash
# exit 0 when the property holds for the demonstrated input
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH=/repo/_build/lib:/repo PYTHONDONTWRITEBYTECODE=1
cd /
exec /opt/vp/venv/bin/python "$D/demo.py"
"""
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    t = tempfile.mkdtemp(dir="/tmp")
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(t, "b", f)
            q = os.path.join(t, "a", f)
            for d in (p, q):
                os.makedirs(os.path.dirname(d), exist_ok=True)
                if not os.path.exists(d):
                    shutil.copy(os.path.join("/repo", f), d)
            txt = open(p).read()
            if txt.count(old) != 1:
                sys.exit("%s: %d matches in %s for %r" % (s["id"], txt.count(old), f, old))
            open(p, "w").write(txt.replace(old, new))
        d = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, stdout=subprocess.PIPE, text=True).stdout
    finally:
        shutil.rmtree(t)
    out = "/verif/seeded/" + s["id"]
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(d)
    open(out + "/demo.py", "w").write(s["demo"].lstrip())
    open(out + "/demo.sh", "w").write(SH)
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", out + "/patch.diff"])
    print(s["id"], "ok" if r.returncode == 0 else "DOES NOT APPLY")
