// P35: the library and the registry as built through the CMake target, compared as in P30.
#include "p30.cpp"
