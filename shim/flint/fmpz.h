#include "../symflint.h"
