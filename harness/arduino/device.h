// What a platform without standard strings, algorithms, streams and mutexes makes of the library: its own take their place.
#pragma once
#include <Arduino.h>
#include <memory>
#include <estd/internal/platform.h>
#undef FEATURE_STD_STRING
#undef FEATURE_STD_ALGORITHM
#undef FEATURE_STD_OSTREAM
#undef FEATURE_STD_MUTEX
#define ESTD_MCU_ATMEL_AVR 1
#define MC_DEVICE 1
