// FLAGS: -std=gnu++20
// The same checks under C++20, where the library enables its concept-based overloads.
#define ALSO_20 1
#include "C13_expected.cpp"
