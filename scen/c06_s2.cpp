#include "c06.h"
SCENARIO(C06, s2_ref) { orders<int &, true>(); }
SCENARIO(C06, s2_void) { orders<void, true>(); }
