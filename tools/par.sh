#!/bin/bash
# par.sh HARNESS PROP N SEED: 8 processes of N/8 cases; prints slow cases and failures
cd /verif/build/plain
for k in 0 1 2 3 4 5 6 7; do ( PBT_SLOW=${SLOW:-3} OMP_NUM_THREADS=1 ./$1 run $2 ${4:-1} $((k*$3/8)) $(((k+1)*$3/8)) /tmp/par_j$k 2>&1 | grep -a '"n":\|^slow' | sed -E 's/"nontrivial":\[[^]]*\]/"nt":../; s/"samples":\[.*\],"fail"/"fail"/; s/"choices":\[[^]]*\]/"ch":../' | cut -c1-900 ; rm -f /tmp/par_j$k ) & done; time wait
