#include "c05.h"
SCENARIO(C05, u3_ref, o.preempt = 1; o.preempt_max = 2) { stage_all<int &, false>(); }
SCENARIO(C05, u3_void, o.preempt = 1; o.preempt_max = 2) { stage_all<void, false>(); }
