#!/bin/bash
# build_hw.sh OUTDIR threads|pthread|noinfo: the cryptodev interface of the current tree with its system calls redirected
set -e
R=${REPO:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd); O=$1; mkdir -p "$O/cfg/lib842"
printf '#ifndef LIB842_CONFIG_H\n#define LIB842_CONFIG_H\n#define LIB842_HAVE_CRYPTODEV_LINUX_COMP\n#endif\n' > "$O/cfg/lib842/config.h"
case $2 in
threads) D=;;
pthread) D="-D__STDC_NO_THREADS__=1 -DCRYPTODEV_COMP_MAX_CHUNKS=1024";;
noinfo) D=-DFAKE_NO_SESSINFO;;
esac
I="-I$O/cfg -I$V/cryptodev/fake -I$R/include"
gcc -std=gnu11 -O2 -g -w -fno-pic -fno-pie -fno-common $D $I -c "$R/src/cryptodev/842_interface.c" -o "$O/i.o" &
g++ -std=gnu++17 -O1 -g -w -fno-pic -fno-pie $D $I -c "$V/cryptodev/hw.cpp" -o "$O/hw.o" &
for j in $(jobs -p); do wait $j || exit 1; done
S=; for f in open open64 openat openat64 __open_2 __open64_2 ioctl fcntl fcntl64 close access faccessat malloc calloc realloc free sysconf getpagesize tss_create tss_delete tss_get tss_set call_once pthread_key_create pthread_key_delete pthread_getspecific pthread_setspecific pthread_once fprintf __fprintf_chk vfprintf dprintf printf puts putchar fputs fputc fwrite perror; do S="$S --redefine-sym $f=hw_$f"; done
# .data and .bss of the interface are restored before every execution
objcopy $S --rename-section .data=hwdata --rename-section .bss=hwbss --set-section-flags .bss=alloc,load,data,contents "$O/i.o" "$O/i2.o"
g++ -no-pie "$O/i2.o" "$O/hw.o" -o "$O/hw" -lpthread
