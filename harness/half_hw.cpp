// flags: -O2 -mf16c
// standalone:
// Half precision, hardware conversion path
#include "half_body.h"
