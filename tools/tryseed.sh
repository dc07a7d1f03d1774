#!/bin/bash
# tryseed.sh [ID...]: runs each planted change's check against a copy of /repo with the change.
# The results are kept in tools/caught.json.
cd "$(dirname "$0")/.."; ROOT=$PWD
. ./env.sh
for id in ${@:-$(ls seeded)}; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  W=$(mktemp -d /tmp/try.XXXXXX)
  cp -a /repo "$W/repo"; mkdir "$W/root"; cp -r known_findings.json specs "$W/root"
  git -C "$W/repo" apply "$ROOT/seeded/$id/patch.diff" || { echo "$id: does not apply"; rm -rf "$W"; continue; }
  sed "s#=> /repo#=> $W/repo#" harness/go.mod > "$W/alt.mod"; cp harness/go.sum "$W/alt.sum"
  (cd harness && go build -modfile "$W/alt.mod" -tags timetzdata -o "$W/vh" .) || { echo "$id: does not build"; rm -rf "$W"; continue; }
  [ $prop = P05 ] && (cd harness && CGO_ENABLED=1 go build -race -modfile "$W/alt.mod" -tags timetzdata -o "$W/vhrace" .)
  timeout 900 "$W/vh" check -prop $prop -tier ${TIER:-quick} -seed ${VERIF_SEED:-1} -root "$W/root" -work "$W" > "$W/log" 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "VIOLATION property=$prop" "$W/log"; then r=yes; else r=no; tail -3 "$W/log" | cut -c1-300; fi
  echo "$id ($prop): caught: $r (rc $rc)"
  python3 - "$id" $r <<'P'
import json,sys
try: d=json.load(open('tools/caught.json'))
except FileNotFoundError: d={}
d[sys.argv[1]]=sys.argv[2]; json.dump(dict(sorted(d.items())),open('tools/caught.json','w'),indent=1)
P
  rm -rf "$W"
done
