#!/bin/bash
# build_streams.sh OUTDIR VARIANT: the streams of the current /repo tree on the controlled scheduler
set -eu
O=$1; R=${REPO:-/repo}; H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$O/cfg/lib842"
echo > "$O/cfg/lib842/config.h"
W=-Wl; for f in malloc calloc realloc free aligned_alloc posix_memalign memcpy memmove memset; do W=$W,--wrap=$f; done
if [ "$2" = codec ]; then # the (de)compressors themselves on the controlled scheduler
	g++ -std=c++17 -O2 -g -fPIC -fvisibility=hidden -shared -DMC_STK=2097152 -DMC_CELLS_LOG=19 -Wl,-Bsymbolic -o "$O/libmcrt.so" "$H/rt.cpp" -ldl &
	mkdir -p "$O/shim/uthash/src"; ln -sfn /usr/include/uthash.h "$O/shim/uthash/src/uthash.h"; ln -sfn /usr/include/utlist.h "$O/shim/uthash/src/utlist.h"
	F="-O1 -g -march=native -fno-omit-frame-pointer -fsanitize=thread -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset -w -I$O/cfg -I$R/include -I$O/shim"
	objs=
	for s in "$R"/src/serial/*.c; do o="$O/s_$(basename "$s").o"; objs="$objs $o"; gcc -std=gnu11 $F -c -o "$o" "$s" & done
	for s in "$R"/src/serial_optimized/*.cpp "$H/scen_codec.cpp"; do o="$O/o_$(basename "$s").o"; objs="$objs $o"; g++ -std=gnu++17 $F -c -o "$o" "$s" & done
	for p in $(jobs -p); do wait "$p"; done
	g++ -no-pie -o "$O/streams" $objs -L"$O" -lmcrt "$W" -Wl,-rpath,"$O" -lpthread
	rm -f $objs; exit 0
fi
if [ "$2" = ocl ]; then # the OpenCL decompressor on the controlled scheduler, with a simulated device
	V=$(dirname "$H"); echo '#define LIB842_HAVE_OPENCL' > "$O/cfg/lib842/config.h"
	g++ -std=c++17 -O2 -g -fPIC -fvisibility=hidden -shared -DMC_STK=2097152 -Wl,-Bsymbolic -o "$O/libmcrt.so" "$H/rt.cpp" -ldl &
	mkdir -p "$O/shim/uthash/src"; ln -sfn /usr/include/uthash.h "$O/shim/uthash/src/uthash.h"; ln -sfn /usr/include/utlist.h "$O/shim/uthash/src/utlist.h"
	g++ -std=gnu++17 -O1 -w "$R/src/tools/cl2c.cpp" -o "$O/cl2c"
	"$O/cl2c" "$R/src/common/842.h" "$O/defs.c" LIB842_CLDECOMPRESS_842DEFS_SOURCE
	"$O/cl2c" "$R/src/ocl/decompress.cl" "$O/kernel.c" LIB842_CLDECOMPRESS_KERNEL_SOURCE
	D="-DCL_TARGET_OPENCL_VERSION=120 -DCL_HPP_MINIMUM_OPENCL_VERSION=120 -DCL_HPP_TARGET_OPENCL_VERSION=120 -DCL_HPP_ENABLE_EXCEPTIONS -DIOHOOK_MODEL"
	X="-O1 -g -march=native -w -I$O/cfg -I$R/include -I$O/shim"; T="-fno-omit-frame-pointer -fsanitize=thread -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset"
	objs=
	for s in "$O/defs.c" "$O/kernel.c" "$R"/src/serial/*.c; do o="$O/s_$(basename "$s").o"; objs="$objs $o"; gcc -std=gnu11 $X -c -o "$o" "$s" & done
	for s in "$V/ocl/fakecl.cpp" "$V/ocl/iohook.cpp"; do o="$O/f_$(basename "$s").o"; objs="$objs $o"; g++ -std=gnu++17 $X $D -fno-builtin -U_FORTIFY_SOURCE -c -o "$o" "$s" & done
	for s in "$R/src/ocl/cl842decompress.cpp" "$H/scen_ocl.cpp"; do o="$O/o_$(basename "$s").o"; objs="$objs $o"; g++ -std=gnu++17 $X $D $T -c -o "$o" "$s" & done
	for p in $(jobs -p); do wait "$p"; done
	g++ -no-pie -rdynamic -o "$O/streams" $objs -L"$O" -lmcrt "$W" -Wl,-rpath,"$O" -ldl -lpthread
	rm -f $objs; exit 0
fi
g++ -std=c++17 -O2 -g -fPIC -fvisibility=hidden -shared -Wl,-Bsymbolic -o "$O/libmcrt.so" "$H/rt.cpp" -ldl &
mkdir -p "$O/shim/uthash/src" "$O/c"
ln -sfn /usr/include/uthash.h "$O/shim/uthash/src/uthash.h"; ln -sfn /usr/include/utlist.h "$O/shim/uthash/src/utlist.h"
for f in "$R"/src/serial/*.c; do gcc -std=gnu11 -O2 -march=native -fPIC -w -I"$R/include" -I"$O/shim" -c "$f" -o "$O/c/s_$(basename $f).o" & done
for f in "$R"/src/serial_optimized/*.cpp; do g++ -std=gnu++17 -O2 -march=native -fPIC -w -I"$R/include" -I"$O/shim" -c "$f" -o "$O/c/o_$(basename $f).o" & done
objs=
for s in "$H/scen.cpp" "$R"/src/stream/*.cpp; do
	o="$O/$(basename "$s" .cpp).o"; objs="$objs $o"
	g++ -std=c++17 -O1 -g -fno-omit-frame-pointer -fsanitize=thread -DLIB842_HAVE_NUMA -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset -I"$O/cfg" -I"$R/include" -I"$R/src/stream" -c -o "$o" "$s" &
done
for p in $(jobs -p); do wait "$p"; done
g++ -shared -o "$O/libcodec.so" "$O"/c/*.o
g++ -no-pie -o "$O/streams" $objs -L"$O" -lmcrt -lcodec "$W" -Wl,-rpath,"$O" -lnuma -lpthread
rm -rf $objs "$O/c"
