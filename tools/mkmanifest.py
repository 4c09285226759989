#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present in checks/."""
import ast, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
mods = {}
for f in sorted(os.listdir(os.path.join(V, "checks"))):
    m = re.match(r"(c\d\d)_\w+\.py$", f)
    if not m:
        continue
    d = {}
    for node in ast.parse(open(os.path.join(V, "checks", f)).read()).body:
        if isinstance(node, ast.Assign):
            try:
                v = ast.literal_eval(node.value)
            except ValueError:
                continue
            t = node.targets[0]
            if isinstance(t, ast.Tuple):
                for a, b in zip(t.elts, v):
                    d[a.id] = b
            elif isinstance(t, ast.Name):
                d[t.id] = v
    mods[m.group(1).upper()] = d
HOOKS = ["de236f71f2fcc4cba13d3d561f5b78a5b57145b2"]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in mods:
        d = mods[i]
        checks.append({"property": i, "quick_cmd": "./checks/run.py %s quick" % i,
                       "thorough_cmd": "./checks/run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": d["TECHNIQUE"], "level": d["LEVEL"], "level_note": d["NOTE"]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "/opt/vp/venv/bin/python lib/vbuild.py ext", "checks": checks,
     "not_applicable": na,
     "hooks": {"guard": "GRAPHILLION_VERIF_HOOKS",
               "enable": "lib/vbuild.py builds its variant \"hooks\" with -DGRAPHILLION_VERIF_HOOKS",
               "source_commits": HOOKS},
     "notes": "Every check rebuilds the extension from /repo's working tree under /verif/build (git-ignored)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
