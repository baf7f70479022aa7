// A stand-in for the Pico SDK's stdio driver.
#pragma once
enum { PICO_OK = 0, PICO_ERROR_TIMEOUT = -1, PICO_ERROR_GENERIC = -2, PICO_ERROR_NO_DATA = -3 };
struct stdio_driver_t { void (*out_chars)(const char* buf, int len); void (*out_flush)(void); int (*in_chars)(char* buf, int len); stdio_driver_t* next; };
