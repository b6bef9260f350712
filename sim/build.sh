#!/bin/bash
# build.sh REPO OUT: builds the simulator with the code of REPO into OUT/vsim
set -e
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$1; OUT=$2
M=$REPO/core/src/main/cpp
mkdir -p "$OUT"
FL="-std=c++14 -O1 -g1 -w -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -fsanitize=address,bounds,null,integer-divide-by-zero,return -fno-sanitize-recover=all"
# every load and store of the code under test is a call (for the address check, and so that threads can be switched there)
FINE="--param asan-instrumentation-with-call-threshold=0"
INC="-I$M/algorithm -I$M/interfaces -I$REPO/core -I$REPO/binding/src/main/cpp -I$HERE/stub -include cstdint -include iostream -include limits -include algorithm"
OWN="-include bits/stdc++.h"   # headers of the repository may rely on what their users include
n=0; pids=()
job() { "$@" & pids+=($!); }
OBJ=""
for s in $(find "$M/algorithm" "$M/interfaces" -name '*.cc' | LC_ALL=C sort); do
  o="$OUT/r$n.o"; n=$((n+1)); OBJ="$OBJ $o"
  job g++ $FL $FINE -fsanitize-coverage=trace-pc $INC -c "$s" -o "$o"
done
job g++ $FL $FINE -fsanitize-coverage=trace-pc $INC $OWN -c "$HERE/api.cc" -o "$OUT/api.o"
for s in model seams; do job g++ $FL $INC $OWN -c "$HERE/$s.cc" -o "$OUT/$s.o"; done
# the simulator itself: not sanitized (compiles faster); shared inline code is taken from the objects above it
job g++ -std=c++14 -O1 -g1 -w -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS $INC $OWN -c "$HERE/sim.cc" -o "$OUT/sim.o"
rc=0; for p in "${pids[@]}"; do wait $p || rc=1; done
[ $rc = 0 ] || { echo "the code does not compile" >&2; exit 1; }
g++ $FL $OBJ "$OUT/api.o" "$OUT/model.o" "$OUT/sim.o" "$OUT/seams.o" -o "$OUT/vsim" -ldl -lpthread
