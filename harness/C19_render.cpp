// C19: rendering an integer as characters, against std::to_chars, for every
// buffer size up to one more than needed.
// ALSO: DEVICE
#include "mc.h"
#include <charconv>
#include <estd/charconv.h>
#include <estd/string.h>
#include <memory>

using namespace mc;

static std::string upper(std::string s) { for(auto& c : s) if(c >= 'a' && c <= 'z') c = (char)(c - 32); return s; }

template <class T> static std::string text(T v, int base)
{ char b[80]; auto e = std::to_chars(b, b + 80, v, base); return std::string(b, e.ptr); }

enum { REGULAR, OPT, OPT_CASED_LOWER, OPT_CASED_UPPER, EXP, FLAVOURS };
static const char* FL[] = {"to_chars", "to_chars_opt", "to_chars_opt lower", "to_chars_opt upper", "to_chars_exp"};

template <class T>
static void size_(Ctx& c, T v, int base, const std::string& want, int flavour, size_t room)
{
    // exact block: ASan sees any write outside, and guard bytes inside the unused part are not promised
    std::unique_ptr<char[]> blk(new char[room + 1]);
    char* first = blk.get() + 1; char* last = first + room;   // block ends at last; byte before is a guard
    blk[0] = '#';
    memset(first, '~', room);
    estd::to_chars_result r;
    switch(flavour)
    {
        case REGULAR: r = estd::to_chars(first, last, v, base); break;
        case OPT: r = estd::to_chars_opt(first, last, v, base); break;
        case OPT_CASED_LOWER: r = estd::to_chars_opt(first, last, v, base, false); break;
        case OPT_CASED_UPPER: r = estd::to_chars_opt(first, last, v, base, true); break;
        default: r = estd::to_chars_exp(first, last, v, base); break;
    }
    std::string w = flavour == OPT_CASED_UPPER ? upper(want) : want;
    CHECK(blk[0] == '#', "outside: %s of %lld base %d wrote before its %zu byte buffer", FL[flavour], (long long)v, base, room);
    if(room < w.size())
    {
        CHECK((std::errc)(int)r.ec == std::errc::value_too_large, "status: %s of %lld base %d in %zu bytes gives %d, expected value_too_large",
            FL[flavour], (long long)v, base, room, (int)r.ec);
        CHECK(r.ptr >= first && r.ptr <= last, "end: %s of %lld base %d in %zu bytes points outside", FL[flavour], (long long)v, base, room);
        if(flavour == REGULAR || flavour == EXP)
            CHECK(r.ptr == last, "end: %s of %lld base %d in %zu bytes stops at %d", FL[flavour], (long long)v, base, room, (int)(r.ptr - first));
        return;
    }
    CHECK(r.ec == 0, "status: %s of %lld base %d in %zu bytes gives error %d", FL[flavour], (long long)v, base, room, (int)r.ec);
    CHECK(r.ptr >= first && r.ptr <= last, "end: %s of %lld base %d in %zu bytes points outside", FL[flavour], (long long)v, base, room);
    std::string got = (flavour == REGULAR || flavour == EXP) ? std::string(first, r.ptr) : std::string(r.ptr, last);
    CHECK(got == w, "text: %s of %lld base %d in %zu bytes gives \"%s\", expected \"%s\"", FL[flavour], (long long)v, base, room, got.c_str(), w.c_str());
}

template <class T, unsigned B> static void fixed_base(Ctx& c, T v)
{
    std::string want = text(v, B);
    char b[80];
    for(size_t room = 0; room <= want.size() + 1; room++)
    {
        memset(b, '#', sizeof b);
        auto r = estd::detail::to_chars<B>(b + 4, b + 4 + room, v);
        CHECK(b[3] == '#' && b[4 + room] == '#', "outside: compile-time base %u of %lld wrote outside %zu bytes", B, (long long)v, room);
        CHECK((r.ec == 0) == (room >= want.size()), "status: compile-time base %u of %lld in %zu bytes gives %d", B, (long long)v, room, (int)r.ec);
        if(r.ec == 0) CHECK(std::string(r.ptr, b + 4 + room) == want, "text: compile-time base %u of %lld gives \"%s\"", B, (long long)v, std::string(r.ptr, b + 4 + room).c_str());
    }
    char s[80];
    auto r = estd::to_string_opt<B>(s, v);
    CHECK(r.ec == 0 && std::string(r.ptr) == want, "text: to_string_opt<%u> of %lld gives \"%s\"", B, (long long)v, r.ptr);
    r = estd::to_string_opt(s, v, B);
    CHECK(r.ec == 0 && std::string(r.ptr) == want, "text: to_string_opt(%u) of %lld gives \"%s\"", B, (long long)v, r.ptr);
}

template <class T> static void strings(Ctx& c, T v)
{
    std::string want = text(v, 10);
    auto s = estd::to_string(v);
    std::string got; for(char ch : s) got += ch;
    CHECK(got == want, "text: to_string of %lld gives \"%s\", expected \"%s\"", (long long)v, got.c_str(), want.c_str());
    CHECK((size_t)s.size() == want.size(), "size: to_string of %lld has size %d", (long long)v, (int)s.size());
    estd::layer1::string<32> t = "xyz";
    estd::to_string(t, v);
    CHECK(t == want.c_str() && (size_t)t.size() == want.size(), "text: to_string into \"xyz\" of %lld gives \"%s\"", (long long)v, t.data());
    char raw[64];
    estd::layer2::string<64> u(raw, 0);
    u += "v=";
    u += s;
    CHECK(std::string(raw) == "v=" + want, "text: appended to_string of %lld gives \"%s\"", (long long)v, raw);
}

template <class T> static void value(Ctx& c, T v, int base)
{
    std::string want = text(v, base);
    for(int f = 0; f < FLAVOURS; f++)
        for(size_t room = 0; room <= want.size() + 1; room++)
            size_(c, v, base, want, f, room);
    c.observe(std::to_string((long long)v) + ":" + std::to_string(base));
}

#define TYPES(X) X(signed char) X(unsigned char) X(short) X(unsigned short) X(int) X(unsigned) X(long) X(unsigned long) X(long long) X(unsigned long long)

// all values of the 8-bit types, all bases, all buffer sizes
SCENARIO(bytes, 1, 1)
{
    int base = 2 + c.pick(35), v = c.pick(256);
    value<signed char>(c, (signed char)v, base);
    value<unsigned char>(c, (unsigned char)v, base);
    value<short>(c, (short)(v - 128), base);
}

// all values of the 16-bit types
SCENARIO_SHARDED(words, 1, 1, 4, 4)
{
    static const int bq[] = {2, 10, 16, 36};
    int base = c.thorough ? 2 + c.pick(35) : c.of(bq);
    int hi = c.pick(256);
    for(int lo = 0; lo < 256; lo++)
    {
        short v = (short)(hi * 256 + lo);
        std::string want = text(v, base), uw = text((unsigned short)v, base);
        for(int f : {REGULAR, EXP})
            for(size_t room : {want.size() - 1, want.size(), want.size() + 2}) size_(c, v, base, want, f, room);
        for(int f : {REGULAR, OPT_CASED_UPPER})
            for(size_t room : {uw.size() - 1, uw.size()}) size_(c, (unsigned short)v, base, uw, f, room);
        if(base == 10) { strings(c, v); strings(c, (unsigned short)v); }
    }
    c.observe((uint64_t)hi * 64 + base);
}

// neighbourhoods of powers of two and of the base, every type
SCENARIO(edges, 1, 1)
{
    int base = 2 + c.pick(35);
    int which = c.pick(2);
    int exp = c.pick(65);
    bool neg = c.flip();
    unsigned __int128 p = 1;
    for(int i = 0; i < exp; i++) { p *= (unsigned)(which ? base : 2); if(p >> 65) return; }
    for(int d = -2; d <= 2; d++)
    {
        unsigned long long m = (unsigned long long)(p + (unsigned __int128)(__int128)d);
        if(neg) m = 0 - m;
#define X(T) value<T>(c, (T)m, base);
        TYPES(X)
#undef X
    }
}

SCENARIO(fixed, 1, 1)
{
    int exp = c.pick(65);
    bool neg = c.flip();
    for(int d = -3; d <= 3; d++)
    {
        unsigned long long m = (exp == 64 ? 0 : 1ull << exp) + (unsigned long long)(long long)d;
        if(neg) m = 0 - m;
#define X(T) fixed_base<T, 2>(c, (T)m); fixed_base<T, 8>(c, (T)m); fixed_base<T, 10>(c, (T)m); fixed_base<T, 16>(c, (T)m); fixed_base<T, 36>(c, (T)m); strings<T>(c, (T)m);
        TYPES(X)
#undef X
        c.observe(m);
    }
    unsigned long long p10 = 1;
    for(int i = 0; i < exp && i < 19; i++) p10 *= 10;
    for(int d = -1; d <= 1; d++)
    {
        unsigned long long m = p10 + (unsigned long long)(long long)d;
        if(neg) m = 0 - m;
#define X(T) strings<T>(c, (T)m);
        TYPES(X)
#undef X
        c.observe(m ^ 99);
    }
}
