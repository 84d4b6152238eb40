/* Independent reference implementations ("the oracle"): plain, table-free where
 * practical, whole-message functions written from the standards.  Nothing in
 * here includes or links code from /repo. */
#ifndef VREF_H
#define VREF_H
#include <stddef.h>
#include <stdint.h>
typedef uint8_t u8;

enum { SB_94TEST, SB_94CP, SB_TEST, SB_A, SB_B, SB_C, SB_D, SB_Z, SB_N };
typedef enum { BC_GOST89, BC_MAGMA, BC_KUZ } bc_type;
typedef struct {
    bc_type t;
    int bs;
    int sb;                     /* S-box set for BC_GOST89 */
    uint32_t k[8];
    u8 rk[10][16];
} bc;
void bc_init(bc *b, bc_type t, int sb, const u8 key[32]);
void bc_enc(const bc *b, const u8 *in, u8 *out);
void bc_dec(const bc *b, const u8 *in, u8 *out);

/* re-keying primitives */
void ref_cp_mesh(bc_type t, int sb, u8 key[32]);      /* CryptoPro key meshing */
void ref_acpkm(bc_type t, u8 key[32]);

enum { M_ECB, M_CBC, M_CFB, M_OFB, M_CTR, M_G89CFB, M_G89CNT };
typedef struct {
    bc_type t;
    int sb;
    int mode;
    int mesh;                   /* CryptoPro meshing (G89CFB/G89CNT) */
    size_t section;             /* ACPKM section in bytes, 0: none (M_CTR) */
} ref_mode;
/* whole message; no padding (ECB/CBC need whole blocks); iv: as given to EVP,
 * for M_CTR the half-block IV followed by zeros/counter (full block) */
int ref_crypt(const ref_mode *m, const u8 key[32], const u8 *iv, int enc,
              const u8 *in, size_t len, u8 *out);
/* key in force after processing len bytes */

/* MACs; out full size: imit 4 bytes (64-bit register returned), OMAC block */
void ref_imit(int sb, int mesh, const u8 key[32], const u8 *iv8,
              const u8 *m, size_t len, int bits, u8 *out);
void ref_omac(bc_type t, const u8 key[32], const u8 *m, size_t len, u8 *out);
void ref_acpkm_master(bc_type t, const u8 key[32], size_t tstar, u8 *km, size_t n);
void ref_omac_acpkm(bc_type t, const u8 key[32], size_t section, size_t tstar,
                    const u8 *m, size_t len, u8 *out);

/* AEAD MGM: tag full block */
void ref_mgm(bc_type t, const u8 key[32], const u8 *nonce, const u8 *aad,
             size_t alen, const u8 *in, size_t len, int enc, u8 *out, u8 *tag);

/* hashes */
void ref_gost94(int sb, const u8 *m, size_t len, u8 out[32]);
/* message = prefix(plen bytes) || (pattern repeated) helpers not needed */
void ref_streebog(int bits, const u8 *m, size_t len, u8 *out);
/* hash selected by: 0 = 94 CryptoPro, 1 = 2012-256, 2 = 2012-512, 3 = 94 test */
void ref_hash(int h, const u8 *m, size_t len, u8 *out);
int ref_hash_len(int h);
void ref_hmac(int h, const u8 *key, size_t klen, const u8 *m, size_t len, u8 *out);

/* KDFs */
void ref_kdf256(const u8 *key, size_t klen, const u8 *label, size_t llen,
                const u8 *seed, size_t slen, u8 out[32]);
void ref_kdf_tree(const u8 *key, size_t klen, const u8 *label, size_t llen,
                  const u8 *seed, size_t slen, int R, size_t outlen, u8 *out);
void ref_tlstree(bc_type t, const u8 key[32], uint64_t seq, u8 out[32]);

/* KExp15: out = 32 + bs octets */
void ref_kexp15(bc_type t, const u8 key[32], const u8 *ckey, const u8 *mkey,
                const u8 *iv /* bs/2 */, u8 *out);
int ref_kimp15(bc_type t, const u8 *in, const u8 *ckey, const u8 *mkey,
               const u8 *iv, u8 *out);

/* CryptoPro key diversification and wrap (RFC 4357 6.3-6.5) */
void ref_diversify(int sb, const u8 kek[32], const u8 ukm[8], u8 out[32]);
void ref_cpwrap(int sb, const u8 kek[32], const u8 ukm[8], const u8 cek[32], u8 out[44]);
int ref_cpunwrap(int sb, const u8 kek[32], const u8 in[44], u8 out[32]);

int ref_selftest(void);         /* published known answers; 0 = ok */
#endif
