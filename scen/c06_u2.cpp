#include "c06.h"
SCENARIO(C06, u2_Tracked) { orders<Tracked, false>(); }
SCENARIO(C06, u2_ref) { orders<int &, false>(); }
