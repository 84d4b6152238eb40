#include <stdarg.h>
#include <openssl/crypto.h>
#include "libprov/prov/err.h"
struct proverr_functions_st {
    const OSSL_CORE_HANDLE *core;
    OSSL_FUNC_core_new_error_fn *new_error;
    OSSL_FUNC_core_set_error_debug_fn *set_debug;
    OSSL_FUNC_core_vset_error_fn *vset;
};
struct proverr_functions_st *proverr_new_handle(const OSSL_CORE_HANDLE *core, const OSSL_DISPATCH *d)
{
    struct proverr_functions_st *h = OPENSSL_zalloc(sizeof *h);
    if (!h) return NULL;
    h->core = core;
    for (; d->function_id; d++)
        switch (d->function_id) {
        case OSSL_FUNC_CORE_NEW_ERROR: h->new_error = OSSL_FUNC_core_new_error(d); break;
        case OSSL_FUNC_CORE_SET_ERROR_DEBUG: h->set_debug = OSSL_FUNC_core_set_error_debug(d); break;
        case OSSL_FUNC_CORE_VSET_ERROR: h->vset = OSSL_FUNC_core_vset_error(d); break;
        }
    return h;
}
struct proverr_functions_st *proverr_dup_handle(struct proverr_functions_st *s) { return s ? OPENSSL_memdup(s, sizeof *s) : NULL; }
void proverr_free_handle(struct proverr_functions_st *h) { OPENSSL_free(h); }
void proverr_new_error(const struct proverr_functions_st *h) { h->new_error(h->core); }
void proverr_set_error_debug(const struct proverr_functions_st *h, const char *file, int line, const char *func) { h->set_debug(h->core, file, line, func); }
void proverr_set_error(const struct proverr_functions_st *h, uint32_t reason, const char *fmt, ...)
{
    va_list a;
    va_start(a, fmt); h->vset(h->core, reason, fmt, a); va_end(a);
}
