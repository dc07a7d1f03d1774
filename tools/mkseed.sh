#!/bin/bash
# mkseed.sh ID PROPERTY PKG "needs" "what it breaks"
# Takes the edits made in /tmp/seedwt (a copy of /repo) and the demonstration
# /tmp/demo_test.go (in package PKG), confirms both, and keeps them under /verif/seeded/ID.
set -u
id=$1 prop=$2 pkg=$3 needs=$4 what=$5
wt=/tmp/seedwt; out=/verif/seeded/$id
. /opt/vp/env.sh
cd $wt || exit 1
git diff > /tmp/seed.diff
[ -s /tmp/seed.diff ] || { echo "no edit"; exit 1; }
go build -tags timetzdata ./... || { echo "does not build"; git checkout -q -- .; exit 1; }
go test -tags timetzdata -vet=off -count=1 -timeout 10m ./... > /tmp/seed.log 2>&1 || { grep -E "^(---|\s+---) FAIL" /tmp/seed.log | head; grep -q "^ok\|FAIL" /tmp/seed.log; echo "existing tests fail"; git checkout -q -- .; exit 1; }
mkdir -p $out
cp /tmp/seed.diff $out/patch.diff; cp /tmp/demo_test.go $out/demo_test.go
cat > $out/demo.sh <<EOS
#!/bin/bash
# Runs the demonstration beside this file in package $pkg (cwd: the repository).
dir=\$(cd "\$(dirname "\$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=\$(mktemp -d) || exit 1
trap 'rm -rf "\$tmp"' EXIT
printf '{"Replace":{"%s/%s/zz_seeded_test.go":"%s/demo_test.go"}}' "\$PWD" "$pkg" "\$dir" > "\$tmp/overlay.json"
go test -vet=off -count=1 -timeout 240s -tags timetzdata -overlay "\$tmp/overlay.json" -run 'TestSeededDemo' ./$pkg
EOS
chmod +x $out/demo.sh
python3 - "$prop" "$needs" "$what" > $out/meta.json <<'EOS'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
EOS
bash $out/demo.sh > /tmp/seed.demo 2>&1 && { echo "demo passes with the change"; rm -rf "$out"; git checkout -q -- .; exit 1; }
tail -4 /tmp/seed.demo | head -3
git checkout -q -- .
bash $out/demo.sh > /tmp/seed.demo 2>&1 || { echo "demo fails without the change"; tail -20 /tmp/seed.demo; rm -rf "$out"; exit 1; }
(cd /repo && git apply --check $out/patch.diff) && echo "kept $id"
