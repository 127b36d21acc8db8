#!/bin/bash
# survey.sh ID N: development aid; prints every violation of runs 0..N-1 (8 processes)
. /opt/vp/env.sh
cd /verif; T=/tmp/survey; mkdir -p $T/src
go build -o $T/instr ./instr && $T/instr -out $T/src && go build $RACE -overlay $T/src/overlay.json -o $T/dst ./cmd/dst || exit 2
c=$(( ($2+15)/16 )); [ $c -gt 3000 ] && c=3000
for ((i=0;i<$2;i+=c)); do echo $i; done | DST_SURVEY=1 xargs -P8 -I{} bash -c "$T/dst work -prop $1 -from {} -to \$(({}+$c)) -dir $T -seed ${SEED:-1} 2>&1 | head -c ${MAXB:-6000}"
