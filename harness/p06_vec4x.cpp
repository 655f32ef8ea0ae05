#include "p06.hpp"
#define SET(M, V, W) M(V, W, x, y, z, w)
SWZ(s_vec4_4x, vec4, vec4, SET, N4_L4)
