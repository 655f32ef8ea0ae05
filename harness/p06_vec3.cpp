#include "p06.hpp"
SWZ(s_vec2_2, vec2, vec2, SETS2, N2_L2)
SWZ(s_vec3_2, vec3, vec2, SETS3, N3_L2)
SWZ(s_vec3_3, vec3, vec3, SETS3, N3_L3)
SWZ(s_vec4_2, vec4, vec2, SETS4, N4_L2)
SWZ(s_vec4_3, vec4, vec3, SETS4, N4_L3)
