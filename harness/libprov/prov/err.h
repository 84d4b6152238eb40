/* The part of libprov's interface which gost_prov.c uses (libprov is a submodule of the project that is not in this tree):
   errors are passed on to the core of the library context which loaded the provider. */
#ifndef VH_LIBPROV_ERR_H
#define VH_LIBPROV_ERR_H
#include <stdint.h>
#include <openssl/core.h>
#include <openssl/core_dispatch.h>
struct proverr_functions_st;
struct proverr_functions_st *proverr_new_handle(const OSSL_CORE_HANDLE *core, const OSSL_DISPATCH *dispatch);
struct proverr_functions_st *proverr_dup_handle(struct proverr_functions_st *src);
void proverr_free_handle(struct proverr_functions_st *handle);
void proverr_new_error(const struct proverr_functions_st *handle);
void proverr_set_error_debug(const struct proverr_functions_st *handle, const char *file, int line, const char *func);
void proverr_set_error(const struct proverr_functions_st *handle, uint32_t reason, const char *fmt, ...);
#endif
