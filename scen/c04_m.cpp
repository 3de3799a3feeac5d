#include "matrix.h"
// attaching in one thread, supplying in another one, for every producer and every way to attach
SCENARIO(C04, matrix_promise, o.preempt = 2) { matrix_race<Tracked>(MP_MAKE, MP_TASK, M_VALUE, M_HOWS, MO_THEN, MO_N); }
SCENARIO(C04, matrix_task, o.preempt = 2) { matrix_race<Tracked>(MP_TASK, MP_INTERRUPTIBLE, M_VALUE, M_HOWS, MO_THEN, MO_N); }
SCENARIO(C04, matrix_interruptible, o.preempt = 2) { matrix_race<Tracked>(MP_INTERRUPTIBLE, MP_UTASK, M_VALUE, M_HOWS, MO_THEN, MO_N); }
SCENARIO(C04, matrix_unwrap, o.preempt = 2) { matrix_race<Tracked>(MP_UTASK, MP_N, M_VALUE, M_HOWS, MO_THEN, MO_N); }
