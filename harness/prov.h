/* The workloads of the engine's ciphers and digests, run on the OpenSSL 3 provider (gost_prov*.c) instead: algorithms are
 * fetched from the provider, and settings which libcrypto does not translate for providers are made with parameters. */
#ifndef PROV_H
#define PROV_H
#define VH_PROV 1
#include "vheng.h"
#include <openssl/provider.h>
#include <openssl/params.h>
#include <openssl/core_names.h>
extern OSSL_PROVIDER *vp_prov;
const EVP_CIPHER *vp_cipher(int nid);
const EVP_MD *vp_digest(int nid);
int vp_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void *ptr);
void vp_load(void);
void vp_unload(void);
#ifndef PROV_IMPL
#define ENGINE_get_cipher(e, nid) vp_cipher(nid)
#define ENGINE_get_digest(e, nid) vp_digest(nid)
#define EVP_CIPHER_CTX_ctrl vp_ctrl
#endif
#endif
