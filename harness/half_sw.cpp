// flags: -O2
// standalone:
// Half precision, software conversion path
// The fallback function itself is compared exhaustively by half_hw.cpp
#define STRIDE (H::thorough() ? 1 : 5)
#include "half_body.h"
