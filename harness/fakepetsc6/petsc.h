#include "petscmat.h"
