#pragma once
#include <stddef.h>
#include <errno.h>
int accel_compress(void *src, size_t srclen, void *dst, size_t *dstlen, int flags);
int accel_decompress(void *src, size_t srclen, void *dst, size_t *dstlen, int flags);
