#!/bin/bash
# mc.sh CLASSDIR WORKDIR REPORT FILE[,FILE...]: explore the specification from the end of each file; writes WORKDIR/edges_<scenario>
CL=$1; WD=$2; REP=$3; FILES=$4; shift 4
mkdir -p "$WD"
cd /verif/spec
exec java -Djava.io.tmpdir="$WD" -Xss64m -XX:+UseParallelGC ${JOPTS:--Xmx6g} -Dmc.files="$FILES" -Dmc.dir="$WD" -Dtrace.report="$REP" \
  -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:TraceOverrides "$@" \
  -cp "$CL:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar" tlc2.TLC \
  -workers ${WORKERS:-8} -nowarning -metadir "$WD" -config MC.cfg MC.tla
