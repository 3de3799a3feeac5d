#include "matrix.h"
// dropping the last futures in one thread, supplying the result in another one
SCENARIO(C08, drop_a2, o.preempt = 2; o.preempt_max = 3) { matrix_drop<int &>(MP_MAKE, MP_ASYNC, M_VALUE, M_HOWS, 0, MO_N); }
SCENARIO(C08, drop_b2, o.preempt = 2; o.preempt_max = 3) { matrix_drop<int &>(MP_ASYNC, MP_DETACHED, M_VALUE, M_HOWS, 0, MO_N); }
SCENARIO(C08, drop_c2, o.preempt = 2; o.preempt_max = 3) { matrix_drop<int &>(MP_DETACHED, MP_UTHEN, M_VALUE, M_HOWS, 0, MO_N); }
SCENARIO(C08, drop_d2, o.preempt = 2; o.preempt_max = 3) { matrix_drop<int &>(MP_UTHEN, MP_N, M_VALUE, M_HOWS, 0, MO_N); }
