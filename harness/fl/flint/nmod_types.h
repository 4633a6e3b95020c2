#include "flint_shim.h"
