#include "c05.h"
SCENARIO(C05, s2_Tracked, o.preempt = 1; o.preempt_max = 2) { stage_all<Tracked, true>(); }
SCENARIO(C05, s2_string, o.preempt = 1; o.preempt_max = 2) { stage_all<std::string, true>(); }
