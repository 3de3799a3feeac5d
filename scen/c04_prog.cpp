// C04: all short programs racing with the supply of the result
#include "prog.h"
SCENARIO(C04, prog2, o.preempt = 3; o.preempt_max = -1) { prog::run<0>(2, 2, 1); }
SCENARIO(C04, prog3, o.preempt = 1; o.preempt_max = 3) { prog::run<0>(3, 1, 3); }
// two consumers with a program each
SCENARIO(C04, pair1, o.preempt = 2; o.preempt_max = 3) { prog::run_pair(1, 1, 1); }
