// Property C42 (time): the Arduino's tick and the Pico's timer, and sleeping by them.
// FLAGS: -DESTD_OS_TYPE=0 -I$VERIF/harness/arduino
// ALSO: -std=gnu++20
#include <Arduino.h>
#include <estd/chrono.h>
#include <estd/port/arduino/chrono.h>
#include <estd/port/arduino/thread.h>
#include <estd/port/rpi/pico/chrono.h>
#include "mc.h"
using namespace mc;

static unsigned long now_ms, slept_ms; static int sleeps, yields; static uint64_t now_us, slept_us, until_us;
unsigned long millis() { return now_ms; } unsigned long micros() { return now_ms * 1000; } void delay(unsigned long ms) { slept_ms += ms; sleeps++; } void yield() { yields++; }
uint64_t time_us_64() { return now_us; } void sleep_us(uint64_t us) { slept_us += us; sleeps++; } absolute_time_t delayed_by_us(absolute_time_t t, uint64_t us) { return t + us; } void sleep_until(absolute_time_t t) { until_us = t; sleeps++; }


// ---- clocks
static const std::vector<unsigned long> times = {0, 1, 999, 1000, 59999, 60000, 3600000, 0x7fffffffUL, 0xffffffffUL};
SCENARIO(arduino_clock, 1, 1)
{
    typedef estd::chrono::arduino_clock K; unsigned long a = c.of(times), b = c.of(times); now_ms = a; auto t = K::now(); CHECK(t.time_since_epoch().count() == a, "now: %lu, the device has been on for %lu ms", (unsigned long)t.time_since_epoch().count(), a); CHECK(K::is_steady, "steady: not");
    CHECK(estd::chrono::duration_cast<estd::chrono::seconds>(t.time_since_epoch()).count() == (long)(a / 1000), "now: in seconds"); CHECK(estd::chrono::milliseconds(t.time_since_epoch()).count() == (long)a, "now: in milliseconds");
    if(b >= a) { now_ms = b; auto u = K::now(); CHECK((u - t).count() == b - a, "between: %lu", (unsigned long)(u - t).count()); CHECK((u > t) == (b > a) && (u == t) == (b == a) && !(u < t), "order: wrong"); auto v = t; v += K::duration(b - a); CHECK(v == u, "later: wrong"); } c.observe(a);
}
SCENARIO(arduino_sleep, 1, 1)
{
    static const std::vector<long> counts = {0, 1, 2, 59, 60, 255, 999, 1000, 1001, 65536, 2000000}; long n = c.of(counts); sleeps = 0; slept_ms = 0; unsigned long want;
    switch(c.pick(6)) { case 0: estd::this_thread::sleep_for(estd::chrono::seconds(n)); want = n * 1000; break; case 1: estd::this_thread::sleep_for(estd::chrono::milliseconds(n)); want = n; break; case 2: estd::this_thread::sleep_for(estd::chrono::microseconds(n)); want = n / 1000; break; case 3: estd::this_thread::sleep_for(estd::chrono::minutes(n)); want = n * 60000; break; case 4: estd::this_thread::sleep_for(estd::chrono::arduino_clock::duration(n)); want = n; break; default: estd::this_thread::sleep_for(estd::chrono::duration<uint8_t, estd::deci>((uint8_t)n)); want = (uint8_t)n * 100ul; break; }
    CHECK(slept_ms == want, "sleep: %lu ms in %d times, expected %lu", slept_ms, sleeps, want); yields = 0; estd::this_thread::yield(); CHECK(yields == 1, "yield: %d", yields); c.observe(want);
}
SCENARIO(pico_clock, 1, 1)
{
    typedef estd::chrono::experimental::pico_clock K; static const std::vector<uint64_t> us = {0, 1, 999, 1000, 999999, 1000000, 0xffffffffull, 0x100000000ull, 86400000000ull * 400}; uint64_t a = c.of(us); now_us = a; auto t = K::now(); CHECK(t.time_since_epoch().count() == a, "now: %llu", (unsigned long long)t.time_since_epoch().count());
    CHECK(estd::chrono::duration_cast<estd::chrono::milliseconds>(t.time_since_epoch()).count() == (long long)(a / 1000), "now: in milliseconds"); 
    auto slept = [&](uint64_t want) { CHECK(slept_us == want, "sleep: %llu us, expected %llu", (unsigned long long)slept_us, (unsigned long long)want); slept_us = 0; };
    slept_us = 0; estd::this_core::sleep_for(K::duration(a)); slept(a); if(a < 1000000) { estd::this_core::sleep_for(estd::chrono::milliseconds(a)); slept(a * 1000); estd::this_core::sleep_for(estd::chrono::seconds(a)); slept(a * 1000000); } c.observe(a);
}
