#define PBT_MAIN
#include "pbt.hpp"
