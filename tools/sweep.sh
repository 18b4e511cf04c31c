#!/bin/bash
# sweep.sh PROP FROM TO [extra args]: runs seeds one by one and tallies the violation keys (development aid)
P=$1; A=$2; B=$3; shift 3
cd "$(dirname "$0")/.."; python3 run.py build $(python3 -c "import groups;print(groups.group_of('$P'))") | tail -3
BIN=$(python3 run.py bin $P)
seq $A $B | xargs -P 8 -I{} sh -c "timeout 60 $BIN --prop $P --one {} $* 2>/dev/null | tail -1 | cut -c1-420 | sed 's/^/seed {} /'" > /tmp/sweep.$P
grep -o 'viol=[01] key=[^ ]*' /tmp/sweep.$P | sort | uniq -c | sort -rn
