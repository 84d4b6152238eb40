#define PROV_IMPL
#include "prov.h"
#include "gost_lcl.h"
int GOST_provider_init(const OSSL_CORE_HANDLE *core, const OSSL_DISPATCH *in, const OSSL_DISPATCH **out, void **ctx);
__attribute__((weak)) int vp_private;     /* the provider is not loaded in the default library context */
ENGINE *vh_eng;         /* there is none */
OSSL_PROVIDER *vp_prov;
static OSSL_PROVIDER *dflt;
#define NF 64
static struct { int nid; EVP_CIPHER *c; EVP_MD *m; } f[NF]; static int nf;
void vp_load(void)
{
    ENG(vp_prov = OSSL_PROVIDER_load(NULL, "gost"));
    vh_count("provider_loads", 1);
}
void vp_unload(void)
{
    while (nf) { nf--; EVP_CIPHER_free(f[nf].c); EVP_MD_free(f[nf].m); f[nf].c = NULL; f[nf].m = NULL; }
    if (vp_prov) HARN(OSSL_PROVIDER_unload(vp_prov) == 1);
    vp_prov = NULL;
}
static const char *nm(int nid) { const char *s = OBJ_nid2sn(nid); return s ? s : OBJ_nid2ln(nid); }
const EVP_CIPHER *vp_cipher(int nid)
{
    for (int i = 0; i < nf; i++) if (f[i].c && f[i].nid == nid) return f[i].c;
    EVP_CIPHER *c = EVP_CIPHER_fetch(NULL, nm(nid), NULL);
    if (!c) { ERR_clear_error(); return NULL; }
    HARN(nf < NF); f[nf].nid = nid; f[nf].m = NULL; f[nf++].c = c;
    return c;
}
const EVP_MD *vp_digest(int nid)
{
    for (int i = 0; i < nf; i++) if (f[i].m && f[i].nid == nid) return f[i].m;
    EVP_MD *m = EVP_MD_fetch(NULL, nm(nid), NULL);
    if (!m) { ERR_clear_error(); return NULL; }
    HARN(nf < NF); f[nf].nid = nid; f[nf].c = NULL; f[nf++].m = m;
    return m;
}
int vp_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void *ptr)
{
    if (type == EVP_CTRL_KEY_MESH) {
        size_t v = (size_t)arg;
        OSSL_PARAM p[2] = { OSSL_PARAM_construct_size_t("key-mesh", &v), OSSL_PARAM_construct_end() };
        return EVP_CIPHER_CTX_set_params(c, p);
    }
    return EVP_CIPHER_CTX_ctrl(c, type, arg, ptr);
}
void vh_engine_load(void) { vp_load(); }
void vh_engine_unload(void) { vp_unload(); }
void vh_program_init(int argc, char **argv)
{
    (void)argc; (void)argv;
    if (ref_selftest()) vh_fatal("reference self-test");
    OPENSSL_init_crypto(OPENSSL_INIT_NO_LOAD_CONFIG, NULL);
    HARN(OSSL_PROVIDER_add_builtin(NULL, "gost", GOST_provider_init) == 1);
    HARN(dflt = OSSL_PROVIDER_load(NULL, "default"));
    if (!vp_private) vp_load();
}
void vh_program_exit(void)
{
    vp_unload();
    OSSL_PROVIDER_unload(dflt);
    ERR_clear_error();
}
const char *vh_eng_reason(void)
{
    static char b[600];
    const char *file, *data; int line, fl;
    unsigned long e = ERR_peek_last_error_all(&file, &line, NULL, &data, &fl);
    if (!e) return "";
    char r[256]; ERR_error_string_n(e, r, sizeof r);
    snprintf(b, sizeof b, "[%s %s]", r, data ? data : "");
    return b;
}
