#!/usr/bin/env python3
"""newseed.py SPEC.py: makes seeded/<id>/ from a spec that defines SEEDS."""
import json, os, subprocess, sys, tempfile, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
DEMO = '''#!/bin/bash
# exit 0 when the repository in the current directory behaves, nonzero when the planted bug is there
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=-mod=readonly GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cp "$D/go.mod.txt" "$W/go.mod"; cp "$D/go.sum.txt" "$W/go.sum"; cp "$D/demo_test.go.txt" "$W/demo_test.go"
cat > "$W/overlay.json" <<X
{"Replace": {"$R/go.mod": "$W/go.mod", "$R/go.sum": "$W/go.sum", "$R/zz_demo_test.go": "$W/demo_test.go"}}
X
go test -vet=off -count=1 -timeout 120s %s-overlay "$W/overlay.json" -run '^TestDemo$' .
'''
for s in spec["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    try:
        subprocess.check_call(["cp", "-a", "/repo", w + "/r"])
        for f, a, b in s["edits"]:
            p = w + "/r/" + f
            t = open(p).read()
            assert t.count(a) == s.get("count", 1), (s["id"], f, t.count(a), a)
            open(p, "w").write(t.replace(a, b))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
        open(d + "/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(w)
    open(d + "/demo.sh", "w").write(DEMO % s.get("flags", ""))
    shutil.copy("/opt/vp/gomod/go.mod", d + "/go.mod.txt")
    shutil.copy("/opt/vp/gomod/go.sum", d + "/go.sum.txt")
    open(d + "/demo_test.go.txt", "w").write(s["demo"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("made", s["id"])
