#!/bin/bash
# Developer tool (no check uses it): trybenign.sh [-t] ID [CHECK...]: applies a behaviour-preserving change benign/ID to a copy of
# /repo in a private mount namespace, runs the tests (-t) and the given checks (default: all), and reports those that are not quiet.
set -u
if [ "${IN_NS:-}" = "" ]; then
  w=$(mktemp -d /tmp/trybug.XXXXXX); cp -a /repo "$w/r"
  IN_NS=$w unshare -Urm bash "$0" "$@"; /bin/rm -rf -- "$w"; exit
fi
mount --bind "$IN_NS/r" /repo || exit 2
nt=1; [ "$1" = -t ] && { nt=0; shift; }
id=$1; shift
cd /repo; git checkout -q -- .; git apply "/verif/benign/$id/patch.diff" 2>/dev/null || { echo "$id: does not apply"; exit 2; }
if [ $nt = 0 ]; then
  bash /opt/vp/build.sh >"$IN_NS/build.log" 2>&1 || { echo "$id: build failed"; tail -20 "$IN_NS/build.log"; }
  bash /opt/vp/test.sh "$IN_NS/t.json" >"$IN_NS/test.log" 2>&1
  python3 -c "import json;d=json.load(open('$IN_NS/t.json'));print('$id tests',len(d['passed']),len(d['failed']),d['failed'][:3])"
fi
[ $# = 0 ] && set -- $(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])")
[ "$*" = none ] && exit
for c; do
  s=$(date +%s)
  (cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 run.py check "$c" >/tmp/bw/$id.$c.log 2>&1); r=$?
  echo "$id: check $c rc=$r $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/bw/$id.$c.log | cut -c1-300)"
done
