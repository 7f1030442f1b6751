#!/bin/bash
# seedtest.sh ID [nocheck]: confirms a planted bug in a scratch copy of /repo and runs the property's check on it.
V=/verif; ID="$1"; S=$V/seeded/$ID
W=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo"
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off
cp /opt/vp/gomod/go.mod /opt/vp/gomod/go.sum "$W/"
sed "s#/repo/#$W/repo/#g" /opt/vp/gomod/overlay.json > "$W/ov.json"
export GOFLAGS="-mod=readonly -overlay=$W/ov.json"
GOFLAGS= bash "$S/demo.sh" > "$W/d0" 2>&1 || { echo "$ID: demo FAILS on unchanged tree"; tail -20 "$W/d0"; exit 1; }
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
go build ./... && go build -tags perf ./... || { echo "$ID: build fails"; exit 1; }
go test -json -vet=off -count=1 ./... > "$W/t.json" 2>/dev/null
python3 - "$W/t.json" <<'PY' || { echo "$ID: stable tests fail"; exit 1; }
import json,sys
ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get("Action")=="pass" and e.get("Test"): ok.add(e["Package"]+"/"+e["Test"])
b=json.load(open("/opt/vp/BASELINE.json"))
want=b if isinstance(b,list) else (b.get("passed") or b.get("tests") or b.get("stable"))
miss=[t for t in want if t not in ok]
if miss: print(miss[:5]); sys.exit(1)
PY
if GOFLAGS= bash "$S/demo.sh" > "$W/d1" 2>&1; then echo "$ID: demo PASSES with the patch"; exit 1; fi
[ "$2" = nocheck ] && { echo "$ID: valid"; exit 0; }
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
VZ_REPO="$W/repo" bash $V/check.sh $P ${2:-quick} > "$W/c" 2>&1; rc=$?
if [ $rc = 1 ] && grep -q "^VIOLATION property=$P" "$W/c"; then echo "$ID: caught by $P ($(grep -c ^VIOLATION "$W/c")) $(grep -m1 -v '^vz_\|ends\|candid' "$W/c" | cut -c1-150)"; else echo "$ID: MISSED by $P rc=$rc"; tail -5 "$W/c" | cut -c1-300; fi
