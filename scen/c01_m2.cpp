#include "matrix.h"
// C01 over the cross product of producers and observers
SCENARIO(C01, matrix_tracked) { matrix<Tracked>(MP_MAKE, MP_NEXT, 0, M_BROKEN); }
SCENARIO(C01, matrix_ref) { matrix<int &>(MP_MAKE, MP_NEXT, 0, M_BROKEN); }
