#include "matrix.h"
// C05 over the cross product of producers and observers
SCENARIO(C05, matrix_void) { matrix<void>(MP_NEXT, MP_DETACHED, 0, M_HOWS); }
SCENARIO(C05, matrix_string) { matrix<std::string>(MP_NEXT, MP_DETACHED, 0, M_HOWS); }
