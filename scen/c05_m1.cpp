#include "matrix.h"
// C05 over the cross product of producers and observers
SCENARIO(C05, matrix_int) { matrix<int>(MP_NEXT, MP_DETACHED, 0, M_HOWS); }
SCENARIO(C05, matrix_uptr) { matrix<uptr>(MP_NEXT, MP_DETACHED, 0, M_HOWS); }
