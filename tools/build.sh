#!/bin/bash
# build.sh OUT [go build flags]: build the harness against /repo's working tree.
set -e
out=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
repo=${VERIF_REPO:-/repo}
export HOME=/root
export PATH=/opt/veriftools/go1.26.10/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
tmp=$(mktemp -d /tmp/vbuild.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
cp "$repo/go.mod" "$tmp/m.mod"; cp "$repo/go.sum" "$tmp/m.sum"
python3 - "$here/harness" "$repo" >"$tmp/overlay.json" <<'PY'
import json,os,sys
h,repo=sys.argv[1:3]
rep={}
for f in sorted(os.listdir(h)):
    if f.endswith('.go'):
        rep[os.path.join(repo,'verifharness',f)]=os.path.join(h,f)
print(json.dumps({"Replace":rep}))
PY
cd "$repo"
GOFLAGS="-mod=mod -modfile=$tmp/m.mod" go build -overlay "$tmp/overlay.json" -tags verif "$@" -o "$out" ./verifharness
