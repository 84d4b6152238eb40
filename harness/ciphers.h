/* the engine's stream/block ciphers and what the standards say they are */
#ifndef CIPHERS_H
#define CIPHERS_H
#include "vheng.h"
/* the provider lacks one cipher, and a way to choose the S-box */
#ifdef VH_PROV
#define HAS_SBOX 0
#define NOT_OFFERED(i) (!strcmp(cds[i].name, "magma-ecb"))
#else
#define HAS_SBOX 1
#define NOT_OFFERED(i) 0
#endif
typedef struct {
    const char *name; bc_type t; int mode, sb, mesh, section, ivlen, pad, sbox, keymesh;
} cdef;
static const cdef cds[] = {
    /* name                 cipher    mode      S-box mesh section iv pad SET_SBOX KEY_MESH */
    { "gost89",             BC_GOST89, M_G89CFB, SB_Z, 1, 0,    8, 0, 1, 1 },
    { "gost89-cnt",         BC_GOST89, M_G89CNT, SB_A, 1, 0,    8, 0, 1, 1 },
    { "gost89-cnt-12",      BC_GOST89, M_G89CNT, SB_Z, 1, 0,    8, 0, 1, 1 },
    { "gost89-cbc",         BC_GOST89, M_CBC,    SB_Z, 0, 0,    8, 1, 1, 0 },
    { "magma-ecb",          BC_MAGMA,  M_ECB,    SB_Z, 0, 0,    0, 1, 0, 0 },
    { "magma-cbc",          BC_MAGMA,  M_CBC,    SB_Z, 0, 0,    8, 1, 0, 0 },
    { "magma-ctr",          BC_MAGMA,  M_CTR,    SB_Z, 0, 0,    4, 0, 0, 0 },
    { "magma-ctr-acpkm",    BC_MAGMA,  M_CTR,    SB_Z, 0, 1024, 4, 0, 0, 1 },
    { "kuznyechik-ecb",     BC_KUZ,    M_ECB,    SB_Z, 0, 0,    0, 1, 0, 0 },
    { "kuznyechik-cbc",     BC_KUZ,    M_CBC,    SB_Z, 0, 0,   16, 1, 0, 0 },
    { "kuznyechik-cfb",     BC_KUZ,    M_CFB,    SB_Z, 0, 0,   16, 0, 0, 0 },
    { "kuznyechik-ofb",     BC_KUZ,    M_OFB,    SB_Z, 0, 0,   16, 0, 0, 0 },
    { "kuznyechik-ctr",     BC_KUZ,    M_CTR,    SB_Z, 0, 0,    8, 0, 0, 0 },
    { "kuznyechik-ctr-acpkm", BC_KUZ,  M_CTR,    SB_Z, 0, 4096, 8, 0, 0, 1 },
    { 0 }
};
#define NCD 14
static const EVP_CIPHER *cph[NCD];
static const struct { const char *txt; int sb; } sboxes[] = {
    { "id-Gost28147-89-CryptoPro-A-ParamSet", SB_A }, { "id-Gost28147-89-CryptoPro-B-ParamSet", SB_B },
    { "id-Gost28147-89-CryptoPro-C-ParamSet", SB_C }, { "id-Gost28147-89-CryptoPro-D-ParamSet", SB_D },
    { "id-tc26-gost-28147-param-Z", SB_Z }, { "id-Gost28147-89-TestParamSet", SB_TEST } };
static void ciphers_setup(void)
{
    for (int i = 0; i < NCD; i++) {
        int nid = OBJ_sn2nid(cds[i].name);
        if (nid == NID_undef) nid = OBJ_ln2nid(cds[i].name);
        ENG(nid != NID_undef);
        cph[i] = ENGINE_get_cipher(vh_eng, nid);
        ENG(cph[i] || NOT_OFFERED(i));
    }
}
static inline int bcbs(bc_type t) { return t == BC_KUZ ? 16 : 8; }
#endif
