// C02: all short programs racing with the supply of the result, spurious wake-ups allowed
#include "prog.h"
SCENARIO(C02, prog2, o.preempt = 2; o.preempt_max = -1; o.env = 1) { prog::run<0>(2, 1, 3); }
