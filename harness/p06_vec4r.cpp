#include "p06.hpp"
#define SET(M, V, W) M(V, W, r, g, b, a)
SWZ(s_vec4_4r, vec4, vec4, SET, N4_L4)
