#define PART 0
#include "acc.hpp"
