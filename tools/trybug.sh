#!/bin/bash
# Developer tool (no check uses it): trybug.sh [-t] [-c] ID [CHECK...]: in a private mount namespace with a copy of /repo in its
# place, apply a seeded bug, run the demonstration and the tests (not with -c), then the given checks (default: the property in
# meta.json; none with -t). Logs go to /tmp/bw.
set -u
if [ "${IN_NS:-}" = "" ]; then
  w=$(mktemp -d /tmp/trybug.XXXXXX); cp -a /repo "$w/r"
  IN_NS=$w unshare -Urm bash "$0" "$@"; rm -rf -- "$w"; exit
fi
mount --bind "$IN_NS/r" /repo || exit 2
nt=0; nc=0
while :; do case "$1" in -t) nc=1; shift;; -c) nt=1; shift;; *) break;; esac; done
id=$1; shift; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
checks=("$@"); [ $# = 0 ] && checks=("$prop"); [ $nc = 1 ] && checks=()
cd /repo || exit 2
git checkout -q -- . 
if [ $nt = 0 ]; then bash "$d/demo.sh" >"$IN_NS/demo0.log" 2>&1; r0=$?; fi
git apply "$d/patch.diff" || exit 2
if [ $nt = 0 ]; then
  bash /opt/vp/test.sh "$IN_NS/t.json" >"$IN_NS/test.log" 2>&1
  t=$(python3 -c "import json;d=json.load(open('$IN_NS/t.json'));print(len(d['passed']),len(d['failed']),d['failed'][:3])")
  bash "$d/demo.sh" >"$IN_NS/demo1.log" 2>&1; r1=$?
  echo "$id: demo clean=$r0 patched=$r1 tests=$t"
fi
for c in ${checks[@]+"${checks[@]}"}; do
  s=$(date +%s)
  (cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 run.py check "$c" >/tmp/bw/$id.$c.log 2>&1); r=$?
  echo "$id: check $c rc=$r $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/bw/$id.$c.log | cut -c1-200)"
done
