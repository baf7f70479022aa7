// Conversions and arithmetic between duration types, part 1 (see C25_chrono.cpp).
// ALSO: DEVICE
#define PAIRS 1
#include "C25_chrono.cpp"
