#include "c06.h"
SCENARIO(C06, u1_int) { orders<int, false>(); }
SCENARIO(C06, u1_uptr) { orders<uptr, false>(); }
