// C22: all short programs over one result with every single allocation of the library failing
#include "prog.h"
SCENARIO(C22, prog3) { prog::run_faulty(3, 3); }
SCENARIO(C22, prog4) { prog::run_faulty(mc::thorough() ? 5 : 4, 3); }
