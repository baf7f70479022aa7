ID="C42-writes-up-to-nul"; PROP="C42"
NEEDS="writing a run of bytes with a NUL among them to an Arduino port"
BREAKS="the run is handed over as C text: what follows the NUL is lost, or what follows the run is sent"
EDITS=[("port/arduino/streambuf.h","        return underlying().write((const uint8_t*)s, count);","        return underlying().write((const char*)s);")]
DEMO=r"""
#include <cstring>
#include <string>
#include <cstdint>
#include <Arduino.h>
#include <estd/string.h>
#include <estd/ostream.h>
#include <estd/port/arduino/ostream.h>
struct Port : Stream
{
    std::string out;
    size_t write(uint8_t b) override { out += (char)b; return 1; }
    using Print::write;
    int available() override { return 0; } int read() override { return -1; } int peek() override { return -1; } size_t readBytes(char*, size_t) override { return 0; }
};
unsigned long millis() { return 0; } unsigned long micros() { return 0; } void delay(unsigned long) {} void yield() {}
int main()
{
    Port p; estd::arduino_ostreambuf b(p);
    return b.sputn("a\0b", 3) == 3 && p.out == std::string("a\0b", 3) ? 0 : 1;
}
"""
FLAGS='-I"$D"'
EXTRA={"Arduino.h": open("/verif/harness/arduino/Arduino.h").read()}
