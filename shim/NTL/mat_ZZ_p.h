#include "../symntl.h"
