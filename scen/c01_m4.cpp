#include "matrix.h"
// C01 over the cross product of producers and observers
SCENARIO(C01, matrix_picky) { matrix<Picky>(MP_MAKE, MP_NEXT, 0, M_BROKEN); }
