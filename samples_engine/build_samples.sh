#!/bin/bash
# build_samples.sh OUTDIR VARIANT: one sample of the current tree on an environment whose calls can be made to fail
set -e
R=${REPO:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd); O=$1; mkdir -p "$O/include/lib842"
echo > "$O/include/lib842/config.h"
X="-O1 -g -w -I$O/include -I$R/include"; D=; L=; S=compdecomp.c; M=FAKE
case $2 in
serial) ;;
optsw) D=-DUSEOPTSW;;
cryptodev) D="-DUSEHW -DLIB842_HAVE_CRYPTODEV_LINUX_COMP";;
streams) D=-DUSEOPTSW; S=compdecomp_streams.cpp;;
cryptodevstreams) D="-DUSEHW -DLIB842_HAVE_CRYPTODEV_LINUX_COMP"; S=compdecomp_streams.cpp;;
ocl) S=compdecomp_cl.cpp; M=OCL;;
oclinplace) S=compdecomp_cl.cpp; M=OCL; D=-DUSE_INPLACE_COMPRESSED_CHUNKS;;
oclmaybe) S=compdecomp_cl.cpp; M=OCL; D=-DUSE_MAYBE_COMPRESSED_CHUNKS;;
esac
CL="-DCL_TARGET_OPENCL_VERSION=120 -DCL_HPP_MINIMUM_OPENCL_VERSION=120 -DCL_HPP_TARGET_OPENCL_VERSION=120 -DCL_HPP_ENABLE_EXCEPTIONS"
# the sample itself: its calls into the environment are redirected
redir() { a=' --redefine-sym main=sample_main'; for f in fopen fclose fseek ftell fread malloc calloc realloc aligned_alloc posix_memalign memalign free; do a="$a --redefine-sym $f=mc_$f"; done
	[ $M = OCL ] && a="$a --redefine-sym optsw842_compress=mc_optsw842_compress"
	objcopy $a "$1"; }
(gcc -std=gnu11 -U_FORTIFY_SOURCE -fno-builtin $X -c "$R/sample/compdecomp_driver.c" -o "$O/driver.o"; redir "$O/driver.o") &
case $S in
*.c) (gcc -std=gnu11 -U_FORTIFY_SOURCE -fno-builtin $X $D -c "$R/sample/$S" -o "$O/core.o"; redir "$O/core.o") &;;
*) (g++ -std=gnu++17 -U_FORTIFY_SOURCE -fno-builtin $X $D $CL -c "$R/sample/$S" -o "$O/core.o"; redir "$O/core.o") &;;
esac
if [ $S = compdecomp_streams.cpp ]; then for f in "$R"/src/stream/*.cpp; do g++ -std=gnu++17 $X -c "$f" -o "$O/st_$(basename "$f").o" & done; fi
if [ $M = OCL ]; then
	mkdir -p "$O/shim/uthash/src"
	printf '#ifndef LIB842_CONFIG_H\n#define LIB842_CONFIG_H\n#define LIB842_HAVE_OPENCL\n#endif\n' > "$O/include/lib842/config.h"
	(g++ -std=gnu++17 -O1 -w "$R/src/tools/cl2c.cpp" -o "$O/cl2c"
	"$O/cl2c" "$R/src/common/842.h" "$O/defs.c" LIB842_CLDECOMPRESS_842DEFS_SOURCE
	"$O/cl2c" "$R/src/ocl/decompress.cl" "$O/kernel.c" LIB842_CLDECOMPRESS_KERNEL_SOURCE
	gcc $X -c "$O/defs.c" -o "$O/defs.o"; gcc $X -c "$O/kernel.c" -o "$O/kernel.o") &
	g++ -std=gnu++17 $X $CL -c "$R/src/ocl/cl842decompress.cpp" -o "$O/host.o" &
	ln -sfn /usr/include/uthash.h "$O/shim/uthash/src/uthash.h"; ln -sfn /usr/include/utlist.h "$O/shim/uthash/src/utlist.h"
	for f in "$R"/src/serial/*.c; do gcc -std=gnu11 $X -I"$O/shim" -c "$f" -o "$O/s_$(basename "$f").o" & done
	for f in "$R"/src/serial_optimized/*.cpp; do g++ -std=gnu++17 -march=native $X -c "$f" -o "$O/o_$(basename "$f").o" & done
	g++ -std=gnu++17 $X -fno-builtin -U_FORTIFY_SOURCE -c "$V/ocl/iohook.cpp" -o "$O/iohook.o" &
	g++ -std=gnu++17 $X -c "$V/ocl/fakecl.cpp" -o "$O/fakecl.o" &
	L=-rdynamic
fi
g++ -std=gnu++17 $X -march=native -D$M -DVARIANT="\"$2\"" -c "$V/samples_engine/samples.cpp" -o "$O/engine.o" &
for j in $(jobs -p); do wait $j || exit 1; done
g++ "$O"/*.o $L -o "$O/samples" -ldl -lpthread
