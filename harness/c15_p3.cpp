#define PART 3
#include "acc.hpp"
