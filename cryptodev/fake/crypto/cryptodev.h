/* Stand-in for the header of the modified cryptodev module (https://github.com/plauth/cryptodev-linux): the parts of the
   user-space interface that src/cryptodev uses. The device itself is simulated by hw.cpp. */
#ifndef L_CRYPTODEV_H
#define L_CRYPTODEV_H
#include <linux/types.h>
#include <linux/ioctl.h>
#define CRYPTODEV_MAX_ALG_NAME 64
#ifndef CRYPTODEV_COMP_MAX_CHUNKS
#define CRYPTODEV_COMP_MAX_CHUNKS 6
#endif
enum cryptodev_crypto_op_t { CRYPTO_842 = 42 };
struct session_op {
	__u32 cipher, mac, compr;
	__u32 keylen; __u8 *key;
	__u32 mackeylen; __u8 *mackey;
	__u32 ses;
};
struct alg_info { char cra_name[CRYPTODEV_MAX_ALG_NAME], cra_driver_name[CRYPTODEV_MAX_ALG_NAME]; };
struct session_info_op {
	__u32 ses;
	struct alg_info cipher_info, hash_info, compr_info;
	__u16 alignmask;
	__u32 flags;
};
#define SIOP_FLAG_KERNEL_DRIVER_ONLY 1
struct crypt_op {
	__u32 ses;
	__u16 op, flags;
	__u32 len, dlen;
	__u8 *src, *dst, *mac, *iv;
	__u32 numchunks;
	__u32 *chunklens, *chunkdlens;
	__s32 *chunkrets;
};
#define COP_ENCRYPT 0
#define COP_DECRYPT 1
#define CIOCGSESSION _IOWR('c', 102, struct session_op)
#define CIOCFSESSION _IOW('c', 103, __u32)
#define CIOCCRYPT _IOWR('c', 104, struct crypt_op)
#ifndef FAKE_NO_SESSINFO
#define CIOCGSESSINFO _IOWR('c', 107, struct session_info_op)
#endif
#endif
