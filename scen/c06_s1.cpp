#include "c06.h"
SCENARIO(C06, s1_int) { orders<int, true>(); }
SCENARIO(C06, s1_Tracked) { orders<Tracked, true>(); }
