#!/bin/bash
# build_ocl.sh OUTDIR fake|pocl
set -e
R=${REPO:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd); O=$1; mkdir -p "$O/include/lib842" "$O/kern"
printf '#ifndef LIB842_CONFIG_H\n#define LIB842_CONFIG_H\n#define LIB842_HAVE_OPENCL\n#endif\n' > "$O/include/lib842/config.h"
g++ -std=gnu++17 -O1 -w "$R/src/tools/cl2c.cpp" -o "$O/cl2c"
"$O/cl2c" "$R/src/common/842.h" "$O/defs.c" LIB842_CLDECOMPRESS_842DEFS_SOURCE
"$O/cl2c" "$R/src/ocl/decompress.cl" "$O/kernel.c" LIB842_CLDECOMPRESS_KERNEL_SOURCE
D="-DCL_TARGET_OPENCL_VERSION=120 -DCL_HPP_MINIMUM_OPENCL_VERSION=120 -DCL_HPP_TARGET_OPENCL_VERSION=120 -DCL_HPP_ENABLE_EXCEPTIONS"
X="-O2 -g -march=native -w -I$O/include -I$R/include"
gcc $X -c "$O/defs.c" -o "$O/defs.o" & gcc $X -c "$O/kernel.c" -o "$O/kernel.o" &
g++ -std=gnu++17 $X $D -c "$R/src/ocl/cl842decompress.cpp" -o "$O/host.o" &
g++ -std=gnu++17 $X -fno-builtin -U_FORTIFY_SOURCE -c "$V/ocl/iohook.cpp" -o "$O/iohook.o" &
if [ "$2" = pocl ]; then F=-DREAL_CL; L=-lOpenCL; else F=; L=; g++ -std=gnu++17 $X -c "$V/ocl/fakecl.cpp" -o "$O/fakecl.o" & fi
g++ -std=gnu++17 $X $D $F -c "$V/ocl/ocl.cpp" -o "$O/ocl.o" &
for j in $(jobs -p); do wait $j || exit 1; done
g++ "$O"/*.o -rdynamic -o "$O/ocl" $L -ldl -lpthread
