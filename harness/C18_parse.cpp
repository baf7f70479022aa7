// C18: parsing an integer from characters, against std::from_chars.
// Every string over a small alphabet up to the bound, plus the whole
// neighbourhood of every representable limit, for every type and base.
#include "mc.h"
#include <charconv>
#include <estd/charconv.h>
#include <memory>

using namespace mc;

static std::string where_text(const std::string& s, int base, const char* type)
{ return "\"" + s + "\" base " + std::to_string(base) + " as " + type; }

// the text sits in an exact-size heap block, so reading past either end is seen by ASan
template <class T>
static void one(Ctx& c, const char* buf, size_t n, int base, const char* tname)
{
    const char* first = buf; const char* last = buf + n;
    for(int seed = 0; seed < 2; seed++)
    {
        T mine = (T)(seed ? 85 : 0), ref = mine;
        auto r = estd::from_chars(first, last, mine, base);
        auto e = std::from_chars(first, last, ref, base);
        auto w = [&] { return where_text(std::string(first, n), base, tname); };
        std::errc ec = (std::errc)(int)r.ec;
        CHECK(ec == e.ec, "status: %s gives error %d, expected %d", w().c_str(), (int)r.ec, (int)e.ec);
        CHECK(r.ptr == e.ptr, "end: %s stops at %d, expected %d", w().c_str(), (int)(r.ptr - first), (int)(e.ptr - first));
        CHECK(mine == ref, "value: %s gives %lld, expected %lld", w().c_str(), (long long)mine, (long long)ref);
        if(!seed) c.observe((uint64_t)(int64_t)mine * 131 + (uint64_t)(r.ptr - first) * 7 + (uint64_t)(int)r.ec);
    }
}

#define TYPES(X) X(signed char) X(unsigned char) X(short) X(unsigned short) X(int) X(unsigned) X(long) X(unsigned long) X(long long) X(unsigned long long)
static void all_types(Ctx& c, const std::string& s, int base)
{
    std::unique_ptr<char[]> b(new char[s.size() ? s.size() : 1]);
    // an empty range sits at the end of its block
    char* p = s.size() ? b.get() : b.get() + 1;
    memcpy(p, s.data(), s.size());
#define X(T) one<T>(c, p, s.size(), base, #T);
    TYPES(X)
#undef X
}

static const int BASES[] = {2, 3, 8, 9, 10, 11, 15, 16, 17, 35, 36};

SCENARIO(strings, 3, 4)
{
    static const char alpha[] = {'-', '0', '1', '7', '9', 'a', 'F', 'z', '+', ' ', '/', ':', '@', 'G', '`', '{', '\0', '\xb1', '\xc1'};
    int n = c.pick(c.bound + 1);
    std::string s;
    for(int i = 0; i < n; i++) s += c.of(alpha);
    c.log("text %s", show(s).c_str());
    for(int b : BASES) all_types(c, s, b);
}

// longer texts from a smaller alphabet: overflow and what follows it
SCENARIO(longer, 6, 8)
{
    static const char alpha[] = {'-', '0', '1', '9', 'f', 'x'};
    int n = c.pick(c.bound + 1);
    std::string s;
    for(int i = 0; i < n; i++) s += c.of(alpha);
    c.log("text %s", show(s).c_str());
    for(int b : {2, 10, 16, 36}) all_types(c, s, b);
}

static std::string in_base(unsigned __int128 v, int base)
{
    std::string r;
    do { int d = (int)(v % base); r.insert(r.begin(), d < 10 ? '0' + d : 'a' + d - 10); v /= base; } while(v);
    return r;
}

// every width's limits +-k in every base, both signs, with leading zeros and trailing text, upper and lower case
SCENARIO(limits, 1, 1)
{
    int base = 2 + c.pick(35);
    int width = 7 + c.pick(2);      // 2^7.. and 2^8.. scaled below
    int shift = c.pick(8);
    unsigned bits = (unsigned)(width == 7 ? 8 * (shift + 1) - 1 : 8 * (shift + 1));
    if(bits > 64) bits = 64;
    bool neg = c.flip();
    static const char* zeros[] = {"", "0", "000"};
    static const char* tails[] = {"", "-", "z", "00", "zz!"};
    const char* z = c.of(zeros); const char* t = c.of(tails);
    for(int d = -40; d <= 40; d++)
    {
        unsigned __int128 v = ((unsigned __int128)1 << bits);
        if(d < 0) v -= (unsigned)-d; else v += (unsigned)d;
        std::string digits = in_base(v, base);
        for(int up = 0; up < 2; up++)
        {
            if(up) for(auto& ch : digits) if(ch >= 'a') ch = (char)(ch - 32);
            all_types(c, std::string(neg ? "-" : "") + z + digits + t, base);
        }
    }
}

// every value of the 16-bit types survives being written and read, in every base
SCENARIO_SHARDED(roundtrip16, 1, 1, 4, 4)
{
    int base = 2 + c.pick(35);
    int hi = c.pick(256);
    for(int lo = 0; lo < 256; lo++)
    {
        short v = (short)(hi * 256 + lo); unsigned short u = (unsigned short)v;
        char b[20];
        auto e = std::to_chars(b, b + 20, v, base);
        short g = (short)~v; auto r = estd::from_chars(b, (const char*)e.ptr, g, base);
        CHECK(r.ec == 0 && r.ptr == e.ptr && g == v, "value: \"%.*s\" base %d gives %d, expected %d", (int)(e.ptr - b), b, base, g, v);
        e = std::to_chars(b, b + 20, u, base);
        unsigned short gu = (unsigned short)~u; r = estd::from_chars(b, (const char*)e.ptr, gu, base);
        CHECK(r.ec == 0 && r.ptr == e.ptr && gu == u, "value: \"%.*s\" base %d gives %u, expected %u", (int)(e.ptr - b), b, base, gu, u);
        if((hi & 15) == 0) c.observe((uint64_t)u * 64 + base);
    }
}
