#include "matrix.h"
// C06 over the cross product of producers and observers
SCENARIO(C06, matrix_picky) { matrix<Picky>(MP_UTASK, MP_N, 0, M_HOWS); }
