#include "matrix.h"
// C06 over the cross product of producers and observers
SCENARIO(C06, matrix_void) { matrix<void>(MP_UTASK, MP_N, 0, M_HOWS); }
SCENARIO(C06, matrix_string) { matrix<std::string>(MP_UTASK, MP_N, 0, M_HOWS); }
