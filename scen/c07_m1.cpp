#include "matrix.h"
// C07 over the cross product of producers and observers
SCENARIO(C07, matrix_int) { matrix<int>(MP_MAKE, MP_N, M_BROKEN, M_HOWS); }
SCENARIO(C07, matrix_uptr) { matrix<uptr>(MP_MAKE, MP_N, M_BROKEN, M_HOWS); }
