#include "matrix.h"
// references to constants
SCENARIO(C07, matrix_const_ref) { matrix<const int &>(MP_MAKE, MP_N, M_BROKEN, M_HOWS); }
