#define PART 2
#include "acc.hpp"
