#include "matrix.h"
// C07 over the cross product of producers and observers
SCENARIO(C07, matrix_void) { matrix<void>(MP_MAKE, MP_N, M_BROKEN, M_HOWS); }
SCENARIO(C07, matrix_string) { matrix<std::string>(MP_MAKE, MP_N, M_BROKEN, M_HOWS); }
