#include "c05.h"
SCENARIO(C05, u2_Tracked, o.preempt = 1; o.preempt_max = 2) { stage_all<Tracked, false>(); }
SCENARIO(C05, u2_string, o.preempt = 1; o.preempt_max = 2) { stage_all<std::string, false>(); }
