// Conversions and arithmetic between duration types, part 2 (see C25_chrono.cpp).
// ALSO: DEVICE
#define PAIRS 2
#include "C25_chrono.cpp"
