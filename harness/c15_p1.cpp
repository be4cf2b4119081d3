#define PART 1
#include "acc.hpp"
