#include "prov.h"
#include "tok.h"
#include "ciphers.h"
#include "dermut.h"
#include "par.h"
const vh_workload vh_workloads[] = { { "params", params_case, par_setup, 0 }, { 0 } };
