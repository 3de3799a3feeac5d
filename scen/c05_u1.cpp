#include "c05.h"
SCENARIO(C05, u1_int, o.preempt = 1; o.preempt_max = 2) { stage_all<int, false>(); }
SCENARIO(C05, u1_uptr, o.preempt = 1; o.preempt_max = 2) { stage_all<uptr, false>(); }
