#include "matrix.h"
// the future returned by detach() under every observer
SCENARIO(C10, matrix_tracked) { matrix<Tracked>(MP_DETACHED, MP_UTASK, 0, M_HOWS); }
SCENARIO(C10, matrix_void) { matrix<void>(MP_DETACHED, MP_UTASK, 0, M_HOWS); }
