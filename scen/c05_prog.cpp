// C05: all short programs racing with the supply of the result
#include "prog.h"
SCENARIO(C05, prog3, o.preempt = 1; o.preempt_max = 3) { prog::run<0>(3, 1, 3); }
SCENARIO(C05, prog4, o.preempt = 0; o.preempt_max = 2) { prog::run<0>(4, 1, 3); }
