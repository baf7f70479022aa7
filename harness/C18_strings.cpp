// Property C18 (strings): the number at the front of a string, and where it ends, against the C library.
// ALSO: DEVICE
#include <estd/string.h>
#include "mc.h"
using namespace mc;
template <class S> static void one(Ctx& c, const S& s, const char* t, int base)
{
    char* e; long l = strtol(t, &e, base); size_t want = e - t; unsigned long u = strtoul(t, nullptr, base); size_t pos = 77;
    long gl = estd::stol(s, &pos, base); CHECK(gl == l && pos == want, "stol: %s in base %d is %ld to %zu, expected %ld to %zu", show(t).c_str(), base, gl, pos, l, want); pos = 77;
    unsigned long gu = estd::stoul(s, &pos, base); CHECK(gu == u && pos == want, "stoul: %s in base %d is %lu to %zu, expected %lu to %zu", show(t).c_str(), base, gu, pos, u, want); pos = 77;
    if(l == (int)l) { int gi = estd::stoi(s, &pos, base); CHECK(gi == l && pos == want, "stoi: %s in base %d is %d to %zu, expected %ld to %zu", show(t).c_str(), base, gi, pos, l, want); CHECK(estd::stoi(s, nullptr, base) == l, "stoi: without place"); }
    CHECK(estd::stol(s, nullptr, base) == l && estd::stoul(s, nullptr, base) == u, "without place");
    if(base == 10) CHECK(estd::stol(s) == l && estd::stoul(s) == u && (l != (int)l || estd::stoi(s) == l), "base: not ten of its own");
    c.observe(std::to_string(l) + "," + std::to_string(want));
}
static void every(Ctx& c, const std::string& t)
{
    c.log("text %s", show(t).c_str()); char b[40]; memset(b, '~', sizeof b); memcpy(b, t.c_str(), t.size() + 1); estd::layer1::string<39> s1(t.c_str()); estd::layer2::string<39> s2(b); estd::layer2::const_string s3(t.c_str());
    for(int base : {0, 2, 8, 10, 16, 36}) { one(c, s1, t.c_str(), base); one(c, s2, t.c_str(), base); one(c, s3, t.c_str(), base); }
    CHECK(!memcmp(b, t.c_str(), t.size() + 1) && b[t.size() + 1] == '~' && s1 == t.c_str(), "text: changed");
}
SCENARIO(text_to_number, 3, 4) { static const char a[] = {'-', '+', ' ', '0', '1', '7', '9', 'a', 'F', 'x', 'z', '\xff', '\n'}; int n = c.pick(c.bound + 1); std::string s; while(n--) s += c.of(a); every(c, s); }
SCENARIO(limits_of_text, 1, 1)
{
    static const char* v[] = {"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "99999999999999999999999", "0x7fffffffffffffff", "777777777777777777777"};
    static const char* tail[] = {"", "x", " ", "."}; every(c, std::string(c.flip() ? " " : "") + c.of(v) + c.of(tail));
}
