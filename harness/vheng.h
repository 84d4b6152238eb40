#ifndef VHENG_H
#define VHENG_H
#define OPENSSL_SUPPRESS_DEPRECATED
#include "vh.h"
#include "ref.h"
#include <openssl/evp.h>
#include <openssl/engine.h>
#include <openssl/err.h>
#include <openssl/objects.h>
#include <openssl/rand.h>
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/hmac.h>
#include <openssl/x509.h>
extern ENGINE *vh_eng;
void vh_engine_load(void);
const char *vh_eng_reason(void);
void vh_engine_unload(void);
#endif
