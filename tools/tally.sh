#!/bin/bash
# tally.sh PROP [N]: N examples per violation key of the last sweep (development aid)
grep viol=1 /tmp/sweep.$1 | cut -c1-${3:-400} | awk -v N=${2:-2} '{k=$0; sub(/.*key=/,"",k); split(k,a," "); if(n[a[1]]++<N) print}'
