#include "petscvec.h"
