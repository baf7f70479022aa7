// A stand-in for the Arduino core: the device's side of Print, Stream and the clock, under the harness's control.
#pragma once
#include <cstddef>
#include <stdint.h>
#include <stddef.h>
#include <string.h>
typedef const char* PGM_P;
#define PROGMEM
#define PSTR(s) (s)
#define strlen_P strlen
#define memcpy_P memcpy
class __FlashStringHelper;
class String { public: unsigned length() const { return 0; } void getBytes(unsigned char*, unsigned) const {} };
class Print
{
public:
    virtual ~Print() {}
    virtual size_t write(uint8_t) = 0;
    virtual size_t write(const uint8_t* s, size_t n) { size_t i = 0; while(i < n && write(s[i])) ++i; return i; }
    size_t write(const char* s) { return s ? write((const uint8_t*)s, strlen(s)) : 0; }
    size_t write(const char* s, size_t n) { return write((const uint8_t*)s, n); }
    size_t print(const __FlashStringHelper* s) { return write((const char*)s); }
    size_t print(const char* s) { return write(s); }
    size_t print(char c) { return write((uint8_t)c); }
    virtual void flush() {}
};
class Stream : public Print
{
public:
    virtual int available() = 0;
    virtual int read() = 0;
    virtual int peek() = 0;
    // waits until the time-out for each byte
    virtual size_t readBytes(char* s, size_t n) = 0;
};
unsigned long millis(); unsigned long micros(); void delay(unsigned long); void yield();
