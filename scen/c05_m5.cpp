#include "matrix.h"
// references to constants
SCENARIO(C05, matrix_const_ref) { matrix<const int &>(MP_NEXT, MP_DETACHED, 0, M_HOWS); }
