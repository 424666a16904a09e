#!/bin/bash
# build_tools.sh OUTDIR VARIANT: the build-time tools of the current tree
set -e
R=${REPO:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd); O=$1; mkdir -p "$O"
g++ -std=gnu++17 -O1 -w "$R/src/tools/cl2c.cpp" -o "$O/cl2c" &
gcc -std=gnu11 -O1 -w "$R/src/tools/gen_crc32table.c" -o "$O/gen" &
for j in $(jobs -p); do wait $j || exit 1; done
"$O/gen" > "$O/gen_table.h"
tbl() { n=$(tr '\n' ' ' < "$2" | grep -oE '[A-Za-z_][A-Za-z0-9_]* *\[[^]]*\] *\[[^]]*\] *=' | head -1 | grep -oE '^[A-Za-z0-9_]+'); printf '#include <stdint.h>\n#include "%s"\nconst uint32_t (*TBL)[256] = %s;\nint ROWS = sizeof %s / sizeof *%s;\n' "$2" $n $n $n > "$O/$1.c"; }
tbl a "$O/gen_table.h"; tbl b "$R/src/common/crc32table.h"
for e in le be; do for t in a b; do D=; [ $e = be ] && D="-U__BYTE_ORDER__ -D__BYTE_ORDER__=__ORDER_BIG_ENDIAN__"; gcc -w -DTBL=TBL_${t}_$e -DROWS=ROWS_${t}_$e $D -c "$O/$t.c" -o "$O/$t$e.o"; done; done
g++ -std=gnu++17 -O1 -g -w "$(dirname "$0")/tools.cpp" "$O"/*.o -o "$O/tools" -ldl
