#!/bin/sh
# parse modules, print only errors
for m in "$@"; do echo "== $m"; java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m 2>&1 | grep -v '^Parsing\|^Semantic processing\|SANY2\|^$' | head -${LINES_MAX:-30}; done
