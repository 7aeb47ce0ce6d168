#!/bin/bash
# try.sh HARNESS PROP N [SEED] [CONF]: run N cases directly and show the outcome
cd /verif/build/${5:-plain} && (time ./$1 run $2 ${4:-1} 0 $3 /tmp/try_j) 2>&1 | sed -E 's/"nontrivial":\[[^]]*\]/"nt":../; s/"choices":\[[^]]*\]/"ch":../' | cut -c1-1800 | grep -v '^sys\|^$\|^user'; rm -f /tmp/try_j
