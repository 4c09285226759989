#!/bin/bash
# seedtest.sh [-c "C01 C02"] ID...: development aid.  For each planted bug: in a private copy of /repo (bind-mounted over
# /repo in a namespace of its own, nothing else sees it): demo on the clean tree, patch, build, stable tests, demo, check(s).
CH=""
if [ "$1" = -c ]; then CH="$2"; shift 2; fi
S=/tmp/seed; mkdir -p $S
for id in "$@"; do
  D=/verif/seeded/$id; W=$S/w-$id-$$; mkdir -p $W
  cp -a /repo $W/repo; mkdir $W/verif; (cd /verif && cp -a checks lib native tools properties.jsonl known_findings.json MANIFEST.json $W/verif/ 2>/dev/null; cp -a build $W/verif/ 2>/dev/null)
  mkdir -p $W/demo; cp $D/* $W/demo/; cp $D/patch.diff $W/p.diff; rm -f $W/demo/*.diff $W/demo/meta.json
  C="${CH:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}"
  unshare -Urm bash -c "
    mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /repo
    bash /opt/vp/build.sh >$W/b0 2>&1 || echo '$id: clean build FAILED'
    timeout 300 bash $W/demo/demo.sh >$W/d0 2>&1; r0=\$?
    patch -p1 -s < $W/p.diff || { echo '$id: patch FAILED'; exit; }
    bash /opt/vp/test.sh $W/out.json >$W/b1 2>&1
    t=\$(python3 - <<P
import json
try:
    o=set(json.load(open('$W/out.json'))['passed']); b=json.load(open('/opt/vp/BASELINE.json'))
    b=set(b['stable'])
    print('tests-ok' if b<=o else 'TESTS-FAIL %s'%sorted(b-o)[:3])
except Exception as e: print('TESTS?',e)
P
)
    timeout 300 bash $W/demo/demo.sh >$W/d1 2>&1; r1=\$?
    echo \"$id demo clean=\$r0 patched=\$r1 \$t\"
    for c in $C; do
      s=\$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/vp/venv/bin/python /verif/checks/run.py \$c quick >$W/c 2>&1; rc=\$?
      echo \"   \$c rc=\$rc \$((\$(date +%s)-s))s \$(grep -m1 VIOLATION $W/c | cut -c1-200)\"
      [ \$rc = 1 ] || tail -3 $W/c
    done
  " 2>&1
  [ -s $W/d0 ] && head -c 300 $W/d0
  rm -rf "$W"
done
