#include "symflint.h"
