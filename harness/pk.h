/* GOST key pairs for the harness: made either by the engine or by our own DER. */
#ifndef PK_H
#define PK_H
#include "vheng.h"
#include "ref_ec.h"
typedef struct { int alg, curve, rc, hash, h12; const char *pset; } pk_type;    /* hash: ref_hash selector of the signature digest */
extern const pk_type pk_types[];
extern const int pk_ntypes;
typedef struct {
    const pk_type *t; const rcurve *c; int n;
    BIGNUM *d; u8 xy[128];
    EVP_PKEY *pk;               /* key pair */
    EVP_PKEY *pub;              /* public only (own SPKI DER) */
    const char *how;
} pk_key;
/* DER writing */
typedef struct { u8 b[2048]; size_t n; } der;
void der_raw(der *o, const void *p, size_t n);
void der_tlv(der *o, int tag, const void *p, size_t n);
void der_wrap(der *o, int tag, const der *in);
void der_oid(der *o, int nid);
void der_alg(der *o, int alg, int curve, int dgst);   /* dgst NID_undef: none */
int pk_dgst_param(const pk_type *t);                    /* digest parameters the engine writes, or NID_undef */
void pk_pkcs8(const pk_type *t, const u8 *oct, size_t n, int fmt, der *o);
void pk_spki(const pk_type *t, const u8 *xy, int n, der *o);
EVP_PKEY *pk_load_pkcs8(const der *o);
EVP_PKEY *pk_load_spki(const der *o);
const pk_type *pk_rtype(void);
void pk_rscalar(const rcurve *c, BIGNUM *d);            /* 1..q-1, edge cases included */
void pk_make(pk_key *k, const pk_type *t);
void pk_make_d(pk_key *k, const pk_type *t, const BIGNUM *d);
void pk_free(pk_key *k);
const EVP_MD *pk_md(const pk_type *t);
int pk_get_xy(EVP_PKEY *pk, int n, u8 *xy);            /* public key held by an EVP_PKEY */
const BIGNUM *pk_get_d(EVP_PKEY *pk);
void pk_setup(void);
const char *pk_bnh(const BIGNUM *b);
#endif
