#!/bin/bash
# checks that everything the checks need is there and warms the Go build cache
set -e
cd "$(dirname "$0")/.."
T=$(mktemp -d); trap 'rm -rf -- "$T"' EXIT
mkdir "$T/classes"
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d "$T/classes" tools/java/*.java
tools/build_driver.sh "$T/drv"
echo ok
