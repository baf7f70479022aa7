// Property C42: streams and clocks over a device are that device: Arduino's serial port and tick, the Pico's console and timer.
// FLAGS: -DESTD_OS_TYPE=0 -I$VERIF/harness/arduino
// ALSO: -std=gnu++20
#include <Arduino.h>
#include <estd/string.h>
#include <estd/istream.h>
#include <estd/ostream.h>
#include <estd/port/arduino/istream.h>
#include <estd/port/arduino/ostream.h>
#include <estd/port/arduino/iostream.h>
#include <estd/port/rpi/pico/ostream.h>
#include <sstream>
#include "mc.h"
using namespace mc;

// The device: takes so many bytes, and gives those that have arrived
struct Port : Stream
{
    Ctx& c; std::string out, arrived, coming; size_t room = 1000; int polls = 0, waited = 0, flash = 0; std::vector<int> pause; 
    explicit Port(Ctx& c) : c(c) {}
    using Print::write;
    size_t write(uint8_t b) override { if(out.size() >= room) return 0; out += (char)b; return 1; }
    void arrive() { if(!coming.empty()) { arrived += coming[0]; coming.erase(0, 1); } }
    // asked while nothing is there, the next byte comes after its pause
    int available() override { if(arrived.empty()) { if(++polls > 200) { mc::current->fail("polling: asks for ever"); } if(!pause.empty()) { if(pause[0] == 0) { arrive(); pause.erase(pause.begin()); } else --pause[0]; } } return (int)arrived.size(); }
    int peek() override { return arrived.empty() ? -1 : (uint8_t)arrived[0]; }
    int read() override { int r = peek(); if(r >= 0) arrived.erase(0, 1); return r; }
    size_t readBytes(char* s, size_t n) override { size_t i = 0; while(i < n) { if(arrived.empty()) { arrive(); waited++; } if(arrived.empty()) break; s[i++] = (char)read(); } return i; }
};
static const std::vector<std::string> feeds = {std::string("a\xff\n\0\x80", 5), std::string("\x7f\xfe\xff\xff" "b", 5), std::string("\0\xe9 1\n", 5)};
static std::string hex(int r) { return r < 0 ? "eof" : show(std::string(1, (char)r)); }

// ---- reading through the stream buffer, bytes arriving in between
SCENARIO_SHARDED(serial_buffer, 6, 7, 8, 16)
{
    Port p(c); p.coming = c.of(feeds); p.room = c.flip() ? 1000 : 2; estd::arduino_streambuf b(p); const estd::arduino_streambuf& cb = b; std::string m, rest = p.coming, out; c.log("coming %s", show(rest).c_str());
    auto head = [&] { return m.empty() ? -1 : (int)(uint8_t)m[0]; };
    for(int d = 0; d < c.bound; d++)
    {
        switch(int op = c.pick(8); op)
        {
        case 0: { if(rest.empty()) return; c.log("a byte arrives"); p.arrive(); m += rest[0]; rest.erase(0, 1); break; }
        case 1: { c.log("sgetc"); int r = b.sgetc(); CHECK(r == head(), "sgetc: gives %s (%d), expected %s", hex(r).c_str(), r, hex(head()).c_str()); r = cb.sgetc(); CHECK(r == head(), "sgetc: gives %d as const, expected %d", r, head()); break; }
        case 2: { c.log("sbumpc"); int r = b.sbumpc(); CHECK(r == head(), "sbumpc: gives %s (%d), expected %s", hex(r).c_str(), r, hex(head()).c_str()); if(!m.empty()) m.erase(0, 1); break; }
        case 3: { c.log("snextc"); if(!m.empty()) m.erase(0, 1); int r = b.snextc(); CHECK(r == head(), "snextc: gives %s (%d), expected %s", hex(r).c_str(), r, hex(head()).c_str()); break; }
        case 4: { c.log("in_avail"); long r = (long)cb.in_avail(); CHECK(r == (long)m.size(), "in_avail: gives %ld, %zu are there", r, m.size()); break; }
        case 5: { int n = c.pick(4); c.log("sgetn(%d)", n); char buf[6]; memset(buf, '~', 6); int r = (int)b.sgetn(buf + 1, n); while((int)m.size() < n && !rest.empty()) { m += rest[0]; rest.erase(0, 1); } int want = std::min<int>(n, (int)m.size());
            CHECK(r == want, "sgetn: gives %d, expected %d", r, want); CHECK(buf[0] == '~' && buf[1 + want] == '~', "sgetn: writes outside"); CHECK(std::string(buf + 1, want) == m.substr(0, want), "sgetn: %s, expected %s", show(std::string(buf + 1, want)).c_str(), show(m.substr(0, want)).c_str()); m.erase(0, want); break; }
        case 6: { char ch = "\xffz\0"[c.pick(3)]; c.log("sputc(%d)", (uint8_t)ch); int r = b.sputc(ch); bool ok = out.size() < p.room; CHECK(r == (ok ? (int)(uint8_t)ch : -1), "sputc: gives %d for %d, %s", r, (uint8_t)ch, ok ? "it has room" : "it is full"); if(ok) out += ch; break; }
        case 7: { int n = c.pick(4); std::string s("\0\xfdyz", n); c.log("sputn(%d)", n); int r = (int)b.sputn(s.data(), n), want = (int)std::min<size_t>(n, p.room - out.size()); CHECK(r == want, "sputn: gives %d of %d, expected %d", r, n, want); out += s.substr(0, want); break; }
        }
        CHECK(p.arrived == m, "device: %s is left to read, expected %s", show(p.arrived).c_str(), show(m).c_str()); CHECK(p.out == out, "device: was given %s, expected %s", show(p.out).c_str(), show(out).c_str());
        if(c.visited(show(m) + "/" + show(rest) + "/" + show(out) + "/" + std::to_string(p.room), c.bound - d)) return;
    }
    c.observe(show(m) + show(rest) + show(out));
}

// ---- reading through the stream
SCENARIO(serial_stream, 7, 9)
{
    Port p(c); p.coming = c.of(feeds); estd::arduino_istream in(p); std::string m, rest = p.coming; c.log("coming %s", show(rest).c_str());
    auto head = [&] { return m.empty() ? -1 : (int)(uint8_t)m[0]; };
    for(int d = 0; d < c.bound; d++)
    {
        switch(c.pick(8))
        {
        case 0: { if(rest.empty()) return; c.log("a byte arrives"); p.arrive(); m += rest[0]; rest.erase(0, 1); break; }
        case 1: { c.log("get"); int r = in.get(); CHECK(r == head(), "get: gives %s (%d), expected %s", hex(r).c_str(), r, hex(head()).c_str()); CHECK(in.eof() == m.empty() && in.fail() == m.empty() && !in.bad(), "get: state %d with %zu there", (int)in.rdstate(), m.size()); if(!m.empty()) m.erase(0, 1); break; }
        case 2: { if(m.empty() && rest.empty()) return; int k = c.pick(3); c.log("peek, after %d polls", k); if(m.empty()) { p.pause = {k}; m += rest[0]; rest.erase(0, 1); } int r = in.peek(); CHECK(r == head(), "peek: gives %s (%d), expected %s", hex(r).c_str(), r, hex(head()).c_str()); CHECK(in.good(), "peek: state %d", (int)in.rdstate()); break; }
        case 3: { int n = c.pick(4); c.log("ignore(%d)", n); in.ignore(n); bool whole = (int)m.size() >= n; CHECK(in.eof() == !whole, "ignore: eof is %d ignoring %d of %zu", (int)in.eof(), n, m.size()); m.erase(0, n); break; }
        case 4: { c.log("ignore(3, newline)"); size_t at = m.find('\n'); in.ignore(3, '\n'); size_t gone = std::min<size_t>(std::min<size_t>(3, m.size()), at == std::string::npos ? 9 : at + 1); bool whole = gone == 3 || (at != std::string::npos && gone == at + 1); CHECK(in.eof() == !whole, "ignore: eof is %d", (int)in.eof()); m.erase(0, gone); break; }
        case 5: { int n = c.pick(4); c.log("read(%d)", n); char buf[4] = {'~', '~', '~', '~'}; in.read(buf, n); while((int)m.size() < n && !rest.empty()) { m += rest[0]; rest.erase(0, 1); } int want = std::min<int>(n, (int)m.size()); CHECK(std::string(buf, 4) == m.substr(0, want) + std::string(4 - want, '~'), "read: %s, expected %s", show(std::string(buf, 4)).c_str(), show(m.substr(0, want)).c_str()); CHECK(in.eof() == (want < n) && in.fail() == (want < n), "read: state %d having read %d of %d", (int)in.rdstate(), want, n); m.erase(0, want); break; }
        case 6: { c.log("readsome(3)"); char buf[4] = {'~', '~', '~', '~'}; int r = (int)in.readsome(buf, 3), want = std::min<int>(3, (int)m.size()); CHECK(r == want, "readsome: %d, expected %d", r, want); CHECK(std::string(buf, 4) == m.substr(0, want) + std::string(4 - want, '~'), "readsome: %s", show(std::string(buf, 4)).c_str()); CHECK(in.good() && p.waited >= 0, "readsome: state %d", (int)in.rdstate()); m.erase(0, want); break; }
        case 7: { c.log("getline"); char buf[6] = {'~', '~', '~', '~', '~', '~'}; size_t at = m.find('\n'); if(at == std::string::npos) return; in.getline(buf, 5); if(at < 5) { CHECK(std::string(buf, at + 1) == m.substr(0, at) + std::string(1, '\0'), "getline: %s, expected %s", show(std::string(buf, 6)).c_str(), show(m.substr(0, at)).c_str()); CHECK(in.good(), "getline: state %d", (int)in.rdstate()); m.erase(0, at + 1); } else return; break; }
        }
        in.clear();
        CHECK(p.arrived == m, "device: %s is left to read, expected %s", show(p.arrived).c_str(), show(m).c_str()); CHECK(p.coming == rest, "device: %s is still to come, expected %s", show(p.coming).c_str(), show(rest).c_str());
        if(c.visited(show(m) + "/" + show(rest), c.bound - d)) return;
    }
    c.observe(show(m) + show(rest));
}

// ---- a word and a number typed slowly: every pattern of pauses
SCENARIO(serial_typed, 2, 3)
{
    static const std::vector<std::string> words = {"ab", "x", "\xe9t\xe9"}; static const std::vector<int> numbers = {7, -12, 305};
    Port p(c); std::string w = c.of(words); int n = c.of(numbers); bool number_first = c.flip(); p.coming = number_first ? std::to_string(n) + " " + w + "\n" : w + " " + std::to_string(n) + "\n"; size_t there = c.pick(3); while(there--) p.arrive(); for(size_t i = 0; i < p.coming.size(); i++) p.pause.push_back(c.pick(c.bound)); c.log("typed %s", show(p.coming).c_str());
    estd::arduino_istream in(p); estd::layer1::string<16> s; int got = 0;
    if(number_first) in >> got >> s; else in >> s >> got;
    CHECK(got == n, "number: %d, typed %d", got, n); CHECK(std::string(s.data(), s.size()) == w, "word: %s, typed %s", show(std::string(s.data(), s.size())).c_str(), show(w).c_str()); CHECK(!in.fail() && !in.bad(), "state: %d", (int)in.rdstate()); CHECK(p.arrived + p.coming == "\n", "left: %s", show(p.arrived + p.coming).c_str());
    c.observe(w);
}

// ---- writing through the streams: the same as any stream, byte for byte
template <class O> static std::string say(Ctx& c, O& o, std::string (*got)(void*), void* dev, bool flash)
{
    std::string m; for(int d = 0; d < c.bound; d++)
    {
        switch(c.pick(9)) { case 0: o << "text"; m += "text"; break; case 1: o << -120; m += "-120"; break; case 2: o.put('\xff'); m += '\xff'; break; case 3: o.write("a\0b", 3); m += std::string("a\0b", 3); break; case 4: o << estd::endl; m += '\n'; break; case 5: { estd::layer1::string<8> s("est\xe9"); o << s; m += "est\xe9"; break; } case 6: o << ""; break; case 7: o << 4000000000u; m += "4000000000"; break; case 8: o.write("zz", 0); break; }
        CHECK(o.good(), "state: %d after %s", (int)o.rdstate(), show(m).c_str()); CHECK(got(dev) == m, "device: was given %s, expected %s", show(got(dev)).c_str(), show(m).c_str());
    }
    return m;
}
SCENARIO(serial_out, 4, 5)
{
    Port p(c); estd::arduino_ostream o(p); auto got = [](void* d) { return ((Port*)d)->out; };
    bool flash = c.flip(); std::string pre; if(flash) { o << (const __FlashStringHelper*)"F"; CHECK(p.out == "F", "flash: %s", show(p.out).c_str()); p.out.clear(); }
    c.observe(say(c, o, got, &p, flash));
    // the arduino's own operator still prints what is not a stream's
}
// a device that refuses: what it took is what was written, in order, and the stream is no longer good
SCENARIO(serial_full, 1, 1)
{
    Port p(c); p.room = c.pick(6); int n = c.pick(7); std::string s = std::string("hell\xff!").substr(0, n); bool one = c.flip(); estd::arduino_ostream o(p); c.log("%d into room for %zu", n, p.room);
    if(one) for(char ch : s) o.put(ch); else o.write(s.data(), n);
    CHECK(p.out == s.substr(0, p.room), "device: was given %s of %s", show(p.out).c_str(), show(s).c_str()); CHECK(o.good() == (n <= (int)p.room), "state: %d with %d into room for %zu", (int)o.rdstate(), n, p.room); c.observe(p.out);
}

// ---- the pico's console
static std::string pico_out; static void out_chars(const char* s, int n) { pico_out.append(s, n); }
static stdio_driver_t console = {out_chars, nullptr, nullptr, nullptr};
SCENARIO(pico_out_stream, 4, 5)
{
    pico_out.clear(); auto got = [](void*) { return pico_out; };
    if(c.flip()) { estd::pico_ostream o(console); c.observe(say(c, o, got, nullptr, false)); } else { estd::basic_pico_ostream<char, &console> o; c.observe(say(c, o, got, nullptr, false)); }
}
template <class B> static void pico_buffer_of(Ctx& c, B& b)
{
    pico_out.clear(); std::string out;
    for(int d = 0; d < c.bound; d++)
    {
        if(c.flip()) { char ch = "\xffz\0"[c.pick(3)]; int r = b.sputc(ch); CHECK(r == (int)(uint8_t)ch, "sputc: gives %d for %d", r, (uint8_t)ch); out += ch; }
        else { int n = c.pick(4); std::string s("\0\xfdy", n); int r = (int)b.sputn(s.data(), n); CHECK(r == n, "sputn: gives %d of %d", r, n); out += s; }
        CHECK(pico_out == out, "device: was given %s, expected %s", show(pico_out).c_str(), show(out).c_str());
    }
    c.observe(show(out));
}
SCENARIO(pico_buffer, 4, 6) { if(c.flip()) { estd::basic_pico_stdio_streambuf<char> b(console); pico_buffer_of(c, b); } else { estd::basic_pico_stdio_streambuf<char, &console> b; pico_buffer_of(c, b); } }
