#!/bin/bash
# seed.sh ID...: confirms planted bugs in a scratch copy of /repo: the demo passes
# without the patch, the patched tree builds and passes the stable tests, the demo
# fails with it; then says which checks report it (own property, or CHECKS="C01 C02").
V=$(cd "$(dirname "$0")/.." && pwd)
. "$V/env.sh"
S=/tmp/s/a/b; SC=$S/thema
W=$(mktemp -d /tmp/seedw.XXXXXX)
trap 'rm -rf -- "$W"' EXIT
for id in "$@"; do
  D=${SEEDDIR:-$V/seeded}/$id
  mkdir -p $S; rm -rf /tmp/s/a/b/thema; cp -a /repo $SC; git -C $SC checkout -q -- .
  out="$id:"
  (cd $SC && bash $D/demo.sh) > $W/d0 2>&1; out="$out demo-clean=$?"
  git -C $SC apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd $SC && go build ./...) > $W/b 2>&1; out="$out build=$?"
  if [ -z "$NOTEST" ]; then
  (cd -L $SC && go test -json -vet=off -count=1 -timeout 10m ./... > $W/log; python3 /opt/vp/results.py $W/out.json gojson:$W/log) > $W/t 2>&1
  out="$out $(python3 - $W/out.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open(sys.argv[1]))['passed'])
print("tests-broken=%d %s"%(len(b-o),sorted(b-o)[:3]))
P
)"
  fi
  (cd $SC && bash $D/demo.sh) > $W/d1 2>&1; out="$out demo-bug=$?"
  p=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  mkdir -p $W/w; VERIF_REPO=$SC bash $V/build.sh $W/w ${CHECKS:-$p} > $W/b2 2>&1 || { out="$out HARNESS-BUILD-FAILS"; tail -3 $W/b2; }
  for c in ${CHECKS:-$p}; do
    (export VERIF_DIR=$W/v TMPDIR=$W VERIF_TIER=quick VERIF_SEED=1 VERIF_REPO=$SC; mkdir -p $W/v; cp $V/known_findings.jsonl $V/properties.jsonl $W/v/; for x in $V/*; do [ -e $W/v/$(basename $x) ] || case $(basename $x) in evidence|replays) mkdir -p $W/v/$(basename $x);; *) ln -s $x $W/v/;; esac; done; t0=$SECONDS; timeout 900 $W/w/zzverif check $c > $W/c 2>&1; echo "rc=$? $((SECONDS-t0))s $(grep -c '^VIOLATION' $W/c) violations" > $W/rc)
    out="$out | $c $(cat $W/rc)"
  done
  echo "$out"
  [ -n "$SHOW" ] && { tail -5 $W/d0; echo --; tail -8 $W/d1; echo --; grep '^VIOL' $W/c | head -5; }
done
rm -rf /tmp/s
