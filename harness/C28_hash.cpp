// Property C28: hashes are the published ones and depend on the characters alone.
#include <estd/string.h>
#include <estd/string_view.h>
#include <estd/functional.h>
#include <estd/optional.h>
#include <list>
#include "mc.h"
using namespace mc;
template <class U> struct Fnv;
template <> struct Fnv<uint32_t> { static constexpr uint32_t prime = 16777619u, basis = 2166136261u; };
template <> struct Fnv<uint64_t> { static constexpr uint64_t prime = 1099511628211ull, basis = 14695981039346656037ull; };
template <class U, bool A> static U ref(const std::string& s, U h)
{
    for(unsigned char ch : s) { if(A) { h ^= ch; h *= Fnv<U>::prime; } else { h *= Fnv<U>::prime; h ^= ch; } }
    return h;
}
template <class U, estd::internal::fnv_modes M> static void fnv(Ctx& c, const std::string& s)
{
    typedef estd::internal::fnv_hash<U, M> F;
    constexpr bool A = M == estd::internal::FNV_1A;
    char* p = new char[s.size()]; memcpy(p, s.data(), s.size());
    U g = F::hash(p, p + s.size()), w = ref<U, A>(s, Fnv<U>::basis);
    CHECK(g == w, "hash: FNV-1%s of %s in %zu bits is %llx, expected %llx", A ? "a" : "", show(s).c_str(), sizeof(U) * 8, (unsigned long long)g, (unsigned long long)w);
    // in pieces, and from other kinds of range
    size_t k = s.size() ? c.pick((int)s.size() + 1) : 0;
    g = F::hash(p + k, p + s.size(), F::hash(p, p + k));
    CHECK(g == w, "hash: FNV-1%s of %s in %zu bits in two pieces is %llx, expected %llx", A ? "a" : "", show(s).c_str(), sizeof(U) * 8, (unsigned long long)g, (unsigned long long)w);
    std::list<unsigned char> l(s.begin(), s.end());
    g = F::hash(l.begin(), l.end());
    CHECK(g == w, "hash: FNV-1%s of %s in %zu bits from a list of bytes is %llx, expected %llx", A ? "a" : "", show(s).c_str(), sizeof(U) * 8, (unsigned long long)g, (unsigned long long)w);
    delete[] p;
}
static void all(Ctx& c, const std::string& s)
{
    c.state(s);
    switch(c.pick(4))
    {
        case 0: fnv<uint32_t, estd::internal::FNV_1>(c, s); break;
        case 1: fnv<uint32_t, estd::internal::FNV_1A>(c, s); break;
        case 2: fnv<uint64_t, estd::internal::FNV_1>(c, s); break;
        case 3: fnv<uint64_t, estd::internal::FNV_1A>(c, s); break;
    }
    c.observe(1);
}
SCENARIO(every_two_bytes, 1, 1) { std::string s; int n = c.pick(3); for(int i = 0; i < n; i++) s += (char)c.pick(256); all(c, s); }
SCENARIO(longer, 1, 1)
{
    static const char cs[] = { 0, 'a', 'b', 127, char(128), char(255) };
    std::string s; int n = c.pick(c.thorough ? 7 : 6); for(int i = 0; i < n; i++) s += c.of(cs);
    all(c, s);
}
// strings: any kind holding the same characters hashes the same, whatever else is in its buffer
SCENARIO(strings, 1, 1)
{
    static const char cs[] = { 'a', 'b', 'z', char(200) };
    std::string s; int n = c.pick(6); for(int i = 0; i < n; i++) s += c.of(cs);
    size_t w = ref<uint32_t, true>(s, Fnv<uint32_t>::basis), g = 0; const char* what = "";
    char b1[32]; memset(b1, '?', sizeof b1); memcpy(b1, s.data(), s.size()); b1[s.size()] = 0;
    auto grow = [&](auto& t) { if(c.flip()) { t += "xyzzy"; t.erase(0, 5); } t += b1; };
    switch(c.pick(6))
    {
        case 5: { what = "an optional view"; typedef estd::optional<estd::string_view> T; T o(estd::string_view(b1, s.size())); g = estd::hash<T>()(o); break; }
        case 0: { what = "a view"; estd::string_view v(b1, s.size()); g = estd::hash<estd::string_view>()(v); break; }
        case 1: { what = "a fixed string"; estd::layer1::string<16> t; grow(t); g = estd::hash<estd::layer1::string<16>>()(t); break; }
        case 2: { what = "a fixed string without terminator"; typedef estd::layer1::string<16, false> T; T t; grow(t); g = estd::hash<T>()(t); break; }
        case 3: { what = "a borrowed buffer"; typedef estd::layer2::string<> T; T t(b1); g = estd::hash<T>()(t); break; }
        case 4: { what = "a borrowed constant"; typedef estd::layer2::const_string T; T t(b1); g = estd::hash<T>()(t); break; }
    }
    CHECK(g == w, "hash: %s holding %s hashes to %zx, expected %zx", what, show(s).c_str(), g, w);
    c.state(s); c.observe(g);
}
template <class T> static void ints(Ctx& c) { T v = (T)c.pick(65535) - (T)32768; CHECK(estd::hash<T>()(v) == (size_t)v, "hash: of integer %lld", (long long)v); c.observe((uint64_t)v); }
SCENARIO(integers, 1, 1) { switch(c.pick(4)) { case 0: ints<int8_t>(c); break; case 1: ints<uint16_t>(c); break; case 2: ints<int>(c); break; case 3: ints<uint64_t>(c); break; } }
