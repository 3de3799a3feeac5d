// C09: all short programs over one result: is_awaiten and the cancel action after every operation
#include "prog.h"
SCENARIO(C09, prog5) { prog::run_awaiten(mc::thorough() ? 6 : 5, 3, 3); }
// two consumers with a program each, racing with the supply
SCENARIO(C09, pair1, o.preempt = 1; o.preempt_max = 3) { prog::run_pair(1, 1, 3); }
