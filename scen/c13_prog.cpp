// C13: all short programs over a result whose continuations run on a pool
#include "prog.h"
SCENARIO(C13, prog2, o.preempt = 2; o.preempt_max = 3) { prog::run<1>(2, 1, 1); }
SCENARIO(C13, prog3, o.preempt = 1; o.preempt_max = 2) { prog::run<1>(3, 1, 2); }
