#include "matrix.h"
// references to constants
SCENARIO(C01, matrix_const_ref) { matrix<const int &>(MP_MAKE, MP_NEXT, 0, M_BROKEN); }
