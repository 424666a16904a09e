#!/bin/bash
# build_codec.sh OUTDIR [san]
set -e
R=${REPO:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd); O=$1; mkdir -p "$O/shim/uthash/src" 
ln -sfn /usr/include/uthash.h "$O/shim/uthash/src/uthash.h"; ln -sfn /usr/include/utlist.h "$O/shim/uthash/src/utlist.h"
if [ "$2" = san ]; then X="-O1 -g -march=native -fsanitize=address -DMC_SAN"; else X="-O2 -g -march=native"; fi
for f in "$R"/src/serial/*.c; do gcc -std=gnu11 $X -w -I"$R/include" -I"$O/shim" -c "$f" -o "$O/s_$(basename $f).o" & done
for f in "$R"/src/serial_optimized/*.cpp; do g++ -std=gnu++17 $X -w -I"$R/include" -I"$O/shim" -c "$f" -o "$O/o_$(basename $f).o" & done
g++ -std=gnu++17 $X -Wall -Wno-misleading-indentation -Wno-sign-compare -Wno-unused-parameter -I"$R/include" -c "$V/codec/codec.cpp" -o "$O/codec.o" &
for j in $(jobs -p); do wait $j || exit 1; done
g++ $X "$O"/*.o -o "$O/codec"
