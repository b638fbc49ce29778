#!/bin/bash
# builds the driver from /repo's current working tree: build_driver.sh OUT
# (VERIF_REPO: another tree, for trying out changes in scratch copies)
set -e
. /opt/vp/env.sh >/dev/null 2>&1 || true
OUT=$1
R=${VERIF_REPO:-/repo}
V=$(cd "$(dirname "$0")/.." && pwd)
T=$(mktemp -d)
trap 'rm -rf -- "$T"' EXIT
python3 - "$T/o.json" "$R" "$V" <<'P'
import json,glob,os,sys
json.dump({"Replace":{sys.argv[2]+"/verifdrv/"+os.path.basename(f):f for f in glob.glob(sys.argv[3]+"/driver/*.go")}},open(sys.argv[1],"w"))
P
cd "$R"
go build -overlay "$T/o.json" -o "$OUT" ./verifdrv
