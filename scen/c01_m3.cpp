#include "matrix.h"
// C01 over the cross product of producers and observers
SCENARIO(C01, matrix_void) { matrix<void>(MP_MAKE, MP_NEXT, 0, M_BROKEN); }
SCENARIO(C01, matrix_string) { matrix<std::string>(MP_MAKE, MP_NEXT, 0, M_BROKEN); }
