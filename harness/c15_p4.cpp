#define PART 4
#include "acc.hpp"
