#include "matrix.h"
// C06 over the cross product of producers and observers
SCENARIO(C06, matrix_int) { matrix<int>(MP_UTASK, MP_N, 0, M_HOWS); }
SCENARIO(C06, matrix_uptr) { matrix<uptr>(MP_UTASK, MP_N, 0, M_HOWS); }
