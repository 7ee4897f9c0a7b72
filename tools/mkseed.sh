#!/bin/bash
# mkseed.sh <id> <property> <package dir> <demo test file> <needs> <what it breaks>
# Stores the current change of the scratch copy /tmp/m/repo as a planted bug, after confirming that it builds,
# that the demonstration passes without and fails with it, and that the repository's tests still pass.
set -e
id=$1 prop=$2 pkg=$3 demo=$4 needs=$5 breaks=$6
S=/verif/seeded/$id
. /opt/vp/env.sh
cd /tmp/m/repo
git diff > /tmp/mkseed.diff; [ -s /tmp/mkseed.diff ]
go build ./...
mkdir -p "$S"
cp /tmp/mkseed.diff "$S/patch.diff"; [ "$demo" -ef "$S/demo_case.go" ] || cp "$demo" "$S/demo_case.go"
cat > "$S/demo.sh" <<X
#!/bin/bash
# run in the repository: exit 0 when the demonstration passes
d=\$(cd "\$(dirname "\$0")" && pwd); R=\$PWD; w=\$(mktemp -d); trap 'rm -rf "\$w"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
printf '{"Replace":{"%s/$pkg/zz_demo_test.go":"%s/demo_case.go"}}' "\$R" "\$d" > "\$w/o.json"
go test -c $RACE -vet=off -overlay "\$w/o.json" -o "\$w/t" ./$pkg || exit 3
mkdir -p "\$w/run/a/b/c" && cd "\$w/run/a/b/c" && TMPDIR=\$w/run timeout 200 "\$w/t" -test.run 'TestDemo' -test.timeout 180s
X
chmod +x "$S/demo.sh"
NEEDS=$needs BREAKS=$breaks PROP=$prop python3 - > "$S/meta.json" <<'X'
import json,os
print(json.dumps({"property":os.environ["PROP"],"needs":os.environ["NEEDS"],"what_it_breaks":os.environ["BREAKS"]},indent=1))
X
if bash "$S/demo.sh" >/tmp/mkseed.bad 2>&1; then echo "demo passes WITH the bug"; rm -r "$S"; git checkout -q .; exit 1; fi
[ $? -ne 3 ] || true
tail -5 /tmp/mkseed.bad | cut -c1-200
git checkout -q .
bash "$S/demo.sh" >/tmp/mkseed.good 2>&1 || { echo "demo fails WITHOUT the bug"; tail /tmp/mkseed.good; rm -r "$S"; exit 1; }
if [ -z "$NOTESTS" ]; then
  git apply "$S/patch.diff"
  sed 's#cd /repo#cd /tmp/m/repo#; s#-C /repo#-C /tmp/m/repo#' /opt/vp/test.sh > /tmp/mkseed.test.sh
  bash /tmp/mkseed.test.sh /tmp/mkseed.json >/tmp/mkseed.log 2>&1 || true
  git checkout -q .
  python3 - <<'X' || { rm -r "$S"; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];r=json.load(open('/tmp/mkseed.json'))
p=set(r.get('passed') or r.get('pass') or [])
if not p: print(str(r)[:300]); sys.exit(1)
m=[t for t in b if t not in p]
print("tests: missing",m); sys.exit(1 if m else 0)
X
fi
echo "stored $id"
