// C18: all short programs racing with the supply of the result
#include "prog.h"
SCENARIO(C18, prog2, o.preempt = 2; o.preempt_max = -1) { prog::run<0>(2, 3, 3); }
SCENARIO(C18, prog3, o.preempt = 2; o.preempt_max = 3) { prog::run<0>(3, 1, 3); }
SCENARIO(C18, prog4, o.preempt = 1; o.preempt_max = 2) { prog::run<0>(4, 1, 1); }
// two consumers with a program each
SCENARIO(C18, pair1, o.preempt = 1; o.preempt_max = 3) { prog::run_pair(1, 1, 3); }
SCENARIO(C18, pair2, o.preempt = 0; o.preempt_max = 2) { prog::run_pair(2, 1, 1); }
