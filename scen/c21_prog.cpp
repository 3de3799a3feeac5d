// C21: all short programs with coroutines among the consumers, racing with the supply. MC_STD: gnu++20
#include <coroutine>
#include "prog.h"
SCENARIO(C21, prog2, o.preempt = 2; o.preempt_max = -1) { prog::run<0>(2, 1, 3); }
SCENARIO(C21, prog3, o.preempt = 1; o.preempt_max = 3) { prog::run<0>(3, 1, 3); }
SCENARIO(C21, prog4, o.preempt = 0; o.preempt_max = 2) { prog::run<0>(4, 1, 3); }
// continuations on a pool
SCENARIO(C21, prog2_pool, o.preempt = 1; o.preempt_max = 3) { prog::run<1>(2, 1, 1); }
// a pool that is stopped
SCENARIO(C21, prog2_stopped, o.preempt = 1; o.preempt_max = 3) { prog::run<2>(2, 1, 1); }
// two consumers with a program each
SCENARIO(C21, pair1, o.preempt = 1; o.preempt_max = 3) { prog::run_pair(1, 1, 3); }
// one thread, the supply at every position
SCENARIO(C21, prog4_seq) { prog::run_awaiten(mc::thorough() ? 5 : 4, 3, 3); }
