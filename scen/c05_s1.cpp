#include "c05.h"
SCENARIO(C05, s1_int, o.preempt = 1; o.preempt_max = 2) { stage_all<int, true>(); }
SCENARIO(C05, s1_uptr, o.preempt = 1; o.preempt_max = 2) { stage_all<uptr, true>(); }
