/* P27: scripts of operations which depend on a seed only; what they put out is in res */
static const char *cn[] = { "gost89", "gost89-cnt", "gost89-cnt-12", "gost89-cbc", "magma-cbc", "magma-ctr", "magma-ctr-acpkm", "magma-mgm", "kuznyechik-ecb", "kuznyechik-cbc", "kuznyechik-cfb", "kuznyechik-ofb", "kuznyechik-ctr", "kuznyechik-ctr-acpkm", "kuznyechik-mgm" };
static const char *dn[] = { "md_gost94", "md_gost12_256", "md_gost12_512" };
static const char *mn[] = { "gost-mac", "gost-mac-12", "magma-mac", "kuznyechik-mac", "kuznyechik-ctr-acpkm-omac" };
static _Thread_local uint64_t sseed;
static _Thread_local u8 res[4096]; static _Thread_local size_t rl;
static void put(const u8 *d, size_t n) { if (rl + n <= sizeof res) { memcpy(res + rl, d, n); rl += n; } }
#define T(x) do { if (!(x)) goto end; } while (0)
static uint64_t sr(void) { sseed = sseed * 6364136223846793005ull + 1442695040888963407ull; return sseed >> 33; }
static int s_cipher(void)
{
    EVP_CIPHER *c = NULL; EVP_CIPHER_CTX *x = NULL, *y = NULL; int r = 0, l, aead; u8 key[32], iv[16], in[200], out[260], tag[16]; const char *n = cn[sr() % 15];
    for (int i = 0; i < 32; i++) key[i] = (u8)sr();
    for (int i = 0; i < 16; i++) iv[i] = (u8)sr() & 0x7f;
    for (int i = 0; i < 200; i++) in[i] = (u8)sr();
    aead = !!strstr(n, "mgm");
    T(c = EVP_CIPHER_fetch(NULL, n, NULL)); T(x = EVP_CIPHER_CTX_new()); T(y = EVP_CIPHER_CTX_new());
    T(EVP_CipherInit_ex(x, c, NULL, key, iv, (int)(sr() & 1) | aead) == 1);
    size_t mesh = 64; OSSL_PARAM p[2] = { OSSL_PARAM_construct_size_t("key-mesh", &mesh), OSSL_PARAM_construct_end() };
    if (strstr(n, "acpkm")) T(EVP_CIPHER_CTX_set_params(x, p) == 1);
    if (aead) T(EVP_CipherUpdate(x, NULL, &l, in, 20) == 1);
    T(EVP_CipherUpdate(x, out, &l, in, 96) == 1); put(out, (size_t)l);
    if (sr() & 1) { T(EVP_CIPHER_CTX_copy(y, x) == 1); EVP_CIPHER_CTX_free(x); x = y; y = NULL; }
    T(EVP_CipherUpdate(x, out, &l, in + 96, 96) == 1); put(out, (size_t)l);
    if (aead) { T(EVP_CipherFinal_ex(x, out, &l) == 1); T(EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_GET_TAG, 8, tag) == 1); put(tag, 8); }
    ASN1_TYPE *t = NULL;
    if (((strstr(n, "gost89") && !strstr(n, "cnt")) || strstr(n, "acpkm")) && (sr() & 1)) {
        t = ASN1_TYPE_new(); int k = t && EVP_CIPHER_param_to_asn1(x, t) > 0; u8 *d = NULL; int dl = k ? i2d_ASN1_TYPE(t, &d) : -1;
        if (dl > 0) put((u8 *)&dl, sizeof dl);       /* the seed in it is random */
        OPENSSL_free(d); ASN1_TYPE_free(t);
        if (dl <= 0) vh_log("%s: no parameters", n);
        T(dl > 0);
    }
    r = 1;
end:
    EVP_CIPHER_CTX_free(x); EVP_CIPHER_CTX_free(y); EVP_CIPHER_free(c); return r;
}
static int s_digest(void)
{
    EVP_MD *d = NULL; EVP_MD_CTX *x = NULL, *y = NULL; int r = 0; u8 in[300], o[64]; unsigned l; const char *n = dn[sr() % 3];
    for (int i = 0; i < 300; i++) in[i] = (u8)sr();
    T(d = EVP_MD_fetch(NULL, n, NULL)); T(x = EVP_MD_CTX_new()); T(y = EVP_MD_CTX_new());
    T(EVP_DigestInit_ex2(x, d, NULL) == 1 && EVP_DigestUpdate(x, in, sr() % 150) == 1);
    T(EVP_MD_CTX_copy_ex(y, x) == 1); T(EVP_DigestUpdate(y, in, 77) == 1 && EVP_DigestFinal_ex(y, o, &l) == 1); put(o, l);
    T(EVP_DigestUpdate(x, in, 150) == 1 && EVP_DigestFinal_ex(x, o, &l) == 1); put(o, l);
    T(EVP_DigestInit_ex2(x, NULL, NULL) == 1 && EVP_DigestUpdate(x, in, 99) == 1 && EVP_DigestFinal_ex(x, o, &l) == 1); put(o, l);
    r = 1;
end:
    EVP_MD_CTX_free(x); EVP_MD_CTX_free(y); EVP_MD_free(d); return r;
}
static int s_mac(void)
{
    EVP_MAC *m = NULL; EVP_MAC_CTX *x = NULL, *y = NULL; int r = 0; u8 in[300], o[64], key[32]; size_t l, mesh = 64; const char *n = mn[sr() % 5];
    for (int i = 0; i < 32; i++) key[i] = (u8)sr();
    for (int i = 0; i < 300; i++) in[i] = (u8)sr();
    T(m = EVP_MAC_fetch(NULL, n, NULL)); T(x = EVP_MAC_CTX_new(m));
    OSSL_PARAM p[2] = { OSSL_PARAM_construct_size_t("key-mesh", &mesh), OSSL_PARAM_construct_end() };
    T(EVP_MAC_init(x, key, 32, strstr(n, "acpkm") ? p : NULL) == 1); T(EVP_MAC_update(x, in, sr() % 150) == 1);
    T(y = EVP_MAC_CTX_dup(x)); T(EVP_MAC_update(y, in, 77) == 1 && EVP_MAC_final(y, o, &l, 64) == 1); put(o, l);
    T(EVP_MAC_update(x, in, 150) == 1 && EVP_MAC_final(x, o, &l, 64) == 1); put(o, l);
    T(EVP_MAC_init(x, NULL, 0, NULL) == 1 && EVP_MAC_update(x, in, 99) == 1 && EVP_MAC_final(x, o, &l, 64) == 1); put(o, l);
    T(EVP_MAC_init(y, key, 32, NULL) == 1 && EVP_MAC_update(y, in, 9) == 1 && EVP_MAC_final(y, o, &l, 64) == 1); put(o, l);
    r = 1;
end:
    EVP_MAC_CTX_free(x); EVP_MAC_CTX_free(y); EVP_MAC_free(m); return r;
}
