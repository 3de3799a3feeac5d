#include "matrix.h"
// references to constants
SCENARIO(C06, matrix_const_ref) { matrix<const int &>(MP_UTASK, MP_N, 0, M_HOWS); }
