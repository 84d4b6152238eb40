#include "prov.h"
#include "chk_cipher.c"
