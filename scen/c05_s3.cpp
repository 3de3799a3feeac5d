#include "c05.h"
SCENARIO(C05, s3_ref, o.preempt = 1; o.preempt_max = 2) { stage_all<int &, true>(); }
SCENARIO(C05, s3_void, o.preempt = 1; o.preempt_max = 2) { stage_all<void, true>(); }
