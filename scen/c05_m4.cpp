#include "matrix.h"
// C05 over the cross product of producers and observers
SCENARIO(C05, matrix_picky) { matrix<Picky>(MP_NEXT, MP_DETACHED, 0, M_HOWS); }
