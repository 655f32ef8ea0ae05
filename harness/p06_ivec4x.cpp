#include "p06.hpp"
#define SET(M, V, W) M(V, W, x, y, z, w)
SWZ(s_ivec4_4x, ivec4, ivec4, SET, N4_L4)
