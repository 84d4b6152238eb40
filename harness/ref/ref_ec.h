/* Reference elliptic-curve layer: curve parameters written from the standards
 * (RFC 4357, RFC 7836, GOST R 34.10 examples) and plain OpenSSL BIGNUM / generic
 * EC_GROUP arithmetic (no curve name, so no engine code is involved). */
#ifndef VREF_EC_H
#define VREF_EC_H
#include "ref.h"
#include <openssl/bn.h>
#include <openssl/ec.h>
typedef struct {
    const char *name; int n;            /* octets per coordinate */
    const char *sp, *sa, *sb, *sq, *sx, *sy; int h;
    EC_GROUP *g; BIGNUM *p, *a, *b, *q, *x, *y;
} rcurve;
enum { RC_TEST, RC_CPA, RC_CPB, RC_CPC, RC_TCA, RC_512A, RC_512B, RC_512C, RC_512T, RC_N };
extern rcurve ref_curves[RC_N];
int ref_ec_init(void);                  /* validates the parameters; 0 = ok */
/* points as X||Y little-endian, 2n octets; return 0 for the point at infinity */
int ref_mul(const rcurve *c, const BIGNUM *k, const EC_POINT *P /* NULL: base */, u8 *xy);
EC_POINT *ref_point(const rcurve *c, const u8 *xy);     /* NULL if not on the curve */
int ref_point_xy(const rcurve *c, const EC_POINT *P, u8 *xy);
int ref_pub(const rcurve *c, const BIGNUM *d, u8 *xy);
void ref_e(const rcurve *c, const u8 *dg, int dl, BIGNUM *e);
/* sig = s || r, n octets each, big-endian */
int ref_verify_ec(const rcurve *c, const u8 *xy, const u8 *dg, int dl, const u8 *sig, size_t sl);
int ref_sign_ec(const rcurve *c, const BIGNUM *d, const BIGNUM *k, const u8 *dg, int dl, u8 *sig);
/* nonce of a signature made with key d */
void ref_nonce(const rcurve *c, const BIGNUM *d, const u8 *dg, int dl, const u8 *sig, BIGNUM *k);
/* VKO: returns length of the result or 0; h: ref_hash selector */
extern u8 ref_shared_xy[128];
int ref_vko(const rcurve *c, const BIGNUM *d, const u8 *pubxy, const u8 *ukm, size_t ul, int h, u8 *out);
/* KEG, 64 octets */
int ref_keg(const rcurve *c, const BIGNUM *d, const u8 *pubxy, const u8 ukm[32], u8 out[64]);
#endif
