#!/bin/bash
# build_ports.sh OUTDIR aix|cuda|cudarelaxed|hls: the ports of the current tree that need hardware or compilers not present, on stand-ins
set -e
R=${REPO:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd); O=$1; mkdir -p "$O/cfg/lib842"
H=
case $2 in
aix) H=LIB842_HAVE_AIX_HWCOMPRESSION;; cuda*) H=LIB842_HAVE_CUDA;; esac
printf '#ifndef LIB842_CONFIG_H\n#define LIB842_CONFIG_H\n%s\n#endif\n' "${H:+#define $H}" > "$O/cfg/lib842/config.h"
X="-O2 -g -w -I$O/cfg -I$R/include -I$V/ports"
case $2 in
aix)
	gcc -std=gnu11 $X -I"$V/ports/aixstub" -c "$R/src/aix/aix.c" -o "$O/aix.o" &
	g++ -std=gnu++17 $X -c "$V/ports/aix.cpp" -o "$O/main.o" & ;;
cuda*)
	python3 "$V/ports/cu2cpp.py" "$R/src/cuda/842_decompress.cu" "$O/842_decompress.cu.cpp"
	U=; [ $2 = cudarelaxed ] && U=-DRELAXED
	g++ -std=gnu++17 $X $U -I"$R/src/cuda" -include "$V/ports/cuda.h" -c "$O/842_decompress.cu.cpp" -o "$O/kernel.o" &
	g++ -std=gnu++17 $X $U -c "$V/ports/cuda.cpp" -o "$O/main.o" & ;;
hls)
	g++ -std=gnu++17 $X -I"$V/ports/hlsstub" -DHLS_SOURCE="\"$R/src/hls/842_decomp.cpp\"" -c "$V/ports/hls.cpp" -o "$O/main.o" & ;;
esac
for j in $(jobs -p); do wait $j || exit 1; done
g++ "$O"/*.o -o "$O/port" -lpthread
