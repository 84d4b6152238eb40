#include "vheng.h"
#include "gost-engine.h"
ENGINE *vh_eng;
void vh_engine_load(void)
{
    ENGINE_load_gost();
    ENG(vh_eng = ENGINE_by_id("gost"));
    ENG(ENGINE_init(vh_eng));
    ENG(ENGINE_set_default(vh_eng, ENGINE_METHOD_ALL));
}
void vh_engine_unload(void)
{
    if (!vh_eng) return;
    ENGINE_unregister_ciphers(vh_eng);
    ENGINE_unregister_digests(vh_eng);
    ENGINE_unregister_pkey_meths(vh_eng);
    ENGINE_unregister_pkey_asn1_meths(vh_eng);
    ENGINE_finish(vh_eng);
    ENGINE_free(vh_eng);
    vh_eng = NULL;
}
__attribute__((weak)) void vh_program_init(int argc, char **argv)
{
    (void)argc; (void)argv;
    if (ref_selftest()) vh_fatal("reference self-test");
    OPENSSL_init_crypto(OPENSSL_INIT_NO_LOAD_CONFIG, NULL);
    vh_engine_load();
}
__attribute__((weak)) void vh_program_exit(void)
{
    vh_engine_unload();
    ERR_clear_error();
}

const char *vh_eng_reason(void)
{
    static char b[600];
    const char *file, *data; int line, fl;
    unsigned long e = ERR_peek_last_error_all(&file, &line, NULL, &data, &fl);
    if (!e) return "";
    char r[256]; ERR_error_string_n(e, r, sizeof r);
    snprintf(b, sizeof b, "[%s %s]", r, data ? data : "");
    return b;
}
