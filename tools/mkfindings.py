"""Regenerates the 'fixed' list of known_findings.json from /repo's fix: commits."""
import json, subprocess, sys
PROPS = {}
for line in open(__file__.replace("mkfindings.py", "fixprops.txt")):
    if line.strip():
        p, subj = line.rstrip("\n").split(" ", 1)
        PROPS[subj] = p
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
d = json.load(open("/verif/known_findings.json"))
d["fixed"] = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        s = s[5:]
        if s not in PROPS:
            print("unmapped:", s)
        d["fixed"].append("fixed: property=%s %s %s" % (PROPS.get(s, "?"), h, s))
json.dump(d, open("/verif/known_findings.json", "w"), indent=1)
open("/verif/known_findings.json", "a").write("\n")
