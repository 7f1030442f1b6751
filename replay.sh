#!/bin/bash
# replay.sh FILE: runs a recorded counterexample against the natively compiled repository.
V="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=-mod=readonly GOSUMDB=off
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
python3 - "$1" "$V" "$W" <<'P'
import json,sys,glob,os
f,v,w=sys.argv[1:]
r=json.load(open(f)); p=r["property"].lower()
m={"/repo/go.mod":v+"/gomod/go.mod","/repo/go.sum":v+"/gomod/go.sum"}
for g in glob.glob(v+"/harness/vz_*.go")+glob.glob(v+"/harness/"+p+".go")+glob.glob(v+"/harness/"+p+"_*.go"):
    m["/repo/zz_"+os.path.basename(g)]=g
json.dump({"Replace":m},open(w+"/overlay.json","w"))
json.dump([{"h":r["harness"],"in":r["inputs"]}],open(w+"/in.json","w"))
P
cd /repo && VZ_IN=$W/in.json VZ_OUT=$W/out.json go test -overlay "$W/overlay.json" -vet=off -count=1 -run '^TestVzReplay$' . ; cat "$W/out.json"
