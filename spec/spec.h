/* common declarations of the reference models */
#include "mpiP.h"
#include "listops.h"
#include "listP.h"
#include "type.h"
void spec_assume(int);
#define ASSUME(x) spec_assume(!!(x))
