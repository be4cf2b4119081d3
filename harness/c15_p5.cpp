#define PART 5
#include "acc.hpp"
