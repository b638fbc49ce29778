#!/bin/bash
# try.sh PATCH PROPERTY...: runs quick checks against a scratch copy of /repo with the patch applied
P=$(readlink -f "$1"); shift
V=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/try_XXXXXX); trap 'rm -rf -- "$W"' EXIT
cp -a /repo "$W/r" && cd "$W/r" && git checkout -q -- . && git apply "$P" || { echo "patch fails"; exit 3; }
for c in "$@"; do
  VERIF_REPO="$W/r" VERIF_EVIDENCE="$W/e" timeout 900 python3 "$V/tools/check.py" "$c" "${TIER:-quick}" > "$W/log" 2>&1; rc=$?
  echo "$(basename "$(dirname "$P")") $c rc=$rc $(grep -A1 -m1 VIOLATION "$W/log" | tail -1 | cut -c1-150)"
done
