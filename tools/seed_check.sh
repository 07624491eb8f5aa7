#!/bin/bash
# tools/seed_check.sh [-t] ID...   (-t: also run the repository's tests)
# Applies seeded/ID/patch.diff to a scratch copy of /repo and reports: tests,
# demo on both trees, and the property's check.
T=0; [ "$1" = -t ] && { T=1; shift; }
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  D=$V/seeded/$id; W=$(mktemp -d /tmp/sw.XXXX)
  git -C ${VERIF_REPO:-/repo} archive HEAD | tar x -C $W
  (cd $W && git init -q . && git apply $D/patch.diff) || { echo "$id: patch does not apply"; rm -rf "$W"; continue; }
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  r=""
  if [ $T = 1 ]; then
    sed "s#cd /repo#cd $W#" /opt/vp/test.sh > $W/.t.sh
    bash $W/.t.sh $W/.out.json >/dev/null 2>&1
    r=$(python3 - $W/.out.json <<'PY'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def passed(d):
    for k in ("passed","stable","tests","pass"):
        if k in d: return set(d[k]) if isinstance(d[k],list) else {t for t,s in d[k].items() if s in ("pass","passed",True)}
    raise SystemExit("keys %s"%list(d))
miss=passed(b)-passed(o)
print("tests-missing=%d %s"%(len(miss),sorted(miss)[:3]))
PY
)
  fi
  (cd ${VERIF_REPO:-/repo} && bash $D/demo.sh >/dev/null 2>&1); a=$?
  (cd $W && bash $D/demo.sh >/tmp/demo.out 2>&1); b=$?
  o=$(cd $V && VERIF_REPO=$W VERIF_EVIDENCE=$W/.ev ./check $P 2>&1); c=$?
  echo "$id [$P] demo clean=$a patched=$b check=$c $r"
  echo "$o" | grep -E "violated|VIOLATION" | head -3 | cut -c1-220
  rm -rf "$W"
done
