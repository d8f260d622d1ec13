#!/bin/bash
# Runs demo.go (beside this script) against /repo's working tree; exit 0: behaves, nonzero: broken.
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd /repo || exit 3
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cat > "$T/o.json" <<J
{"Replace": {"/repo/zzdemo/main.go": "$D/demo.go"}}
J
F=$OWN; [ -e "$D/ext" ] && F=$EXT
GOFLAGS=$F go build -overlay "$T/o.json" -o "$T/demo" ./zzdemo || exit 4
cd "$T" && timeout 60 ./demo
