#include "prov.h"
#include "chk_aead.c"
