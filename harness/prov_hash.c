#include "prov.h"
#include "chk_hash.c"
