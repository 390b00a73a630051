#define HART_IMPLEMENTATION
#include "hart.hpp"
