// Integer limits, string lengths, byte order and promoted types against the compiler's own.
// ALSO: DEVICE
#include "mc.h"
#include <estd/limits.h>
#include <estd/bit.h>
#include <estd/type_traits.h>
#include <estd/internal/promoted_type.h>
#include <limits>
#include <type_traits>
#include <cfloat>
#include <cstring>
#include <vector>

#define N(x) ((long long)(x))
template <class T> static std::string in_base(T v, int base)
{
    bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : v; std::string s;
    do { s.insert(s.begin(), "0123456789abcdef"[(int)(u % base)]); u /= base; } while(u);
    return neg ? "-" + s : s;
}
template <class T, bool = std::numeric_limits<T>::is_signed> struct counterpart { typedef typename estd::numeric_limits<T>::unsigned_type other; typedef typename estd::numeric_limits<T>::signed_type self; };
template <class T> struct counterpart<T, false> { typedef typename estd::numeric_limits<T>::signed_type other; typedef typename estd::numeric_limits<T>::unsigned_type self; };
template <class T> static void integer(mc::Ctx& c)
{
    typedef estd::numeric_limits<T> E; typedef std::numeric_limits<T> S;
    CHECK(E::min() == S::min() && E::max() == S::max(), "limits: %lld..%lld of %zu bytes", N(E::min()), N(E::max()), sizeof(T));
    CHECK(E::is_specialized && E::is_integer && E::is_signed == S::is_signed && !E::is_iec559, "limits: kind of integer of %zu bytes", sizeof(T));
    CHECK((int)E::digits == S::digits && (int)E::digits10 == S::digits10 && (int)E::radix == S::radix && E::bits == sizeof(T) * 8, "limits: %d bits, %d digits of %zu bytes", (int)E::digits, (int)E::digits10, sizeof(T));
    CHECK(sizeof(typename counterpart<T>::other) == sizeof(T) && std::is_signed<typename counterpart<T>::other>::value != S::is_signed && sizeof(typename counterpart<T>::self) == sizeof(T) && std::is_signed<typename counterpart<T>::self>::value == S::is_signed, "limits: counterpart of %zu bytes", sizeof(T));
    unsigned room[] = { E::template length<8>::value, E::template length<10>::value, E::template length<16>::value };
    int bases[] = { 8, 10, 16 };
    // every value near the ends and near every power of the base fits the promised length, and some value needs it but for a sign
    for(int i = 0; i < 3; i++)
    {
        size_t longest = 0;
        auto look = [&](__int128 v) { if(v < S::min() || v > S::max()) return; std::string s = in_base((T)v, bases[i]); if(s.size() > longest) longest = s.size(); CHECK(s.size() <= room[i], "length: %s takes more than %u characters in base %d", s.c_str(), room[i], bases[i]); };
        for(int d = 0; d < 300; d++) { look((__int128)S::max() - d); look((__int128)S::min() + d); }
        for(__int128 p = 1; p <= S::max(); p *= bases[i]) for(int d = -1; d < 2; d++) { look(p + d); look(-p - d); }
        CHECK(room[i] <= longest + (S::is_signed ? 1 : 0), "length: %u characters promised in base %d, %zu needed", room[i], bases[i], longest);
        c.observe((uint64_t)room[i]);
    }
}
template <class T> static void floating(mc::Ctx& c)
{
    typedef estd::numeric_limits<T> E; typedef std::numeric_limits<T> S;
    CHECK(E::min() == S::min() && E::max() == S::max() && E::lowest() == S::lowest(), "limits: floating point range");
    CHECK(E::is_specialized && !E::is_integer && E::is_signed && E::is_iec559 == S::is_iec559 && (int)E::digits == S::digits && (int)E::digits10 == S::digits10 && (int)E::radix == S::radix, "limits: floating point kind");
}
SCENARIO(limits, 1, 1)
{
    static void (*const f[])(mc::Ctx&) = { integer<signed char>, integer<unsigned char>, integer<short>, integer<unsigned short>, integer<int>, integer<unsigned>, integer<long>, integer<unsigned long>, integer<long long>, integer<unsigned long long>,
        integer<int8_t>, integer<uint8_t>, integer<int16_t>, integer<uint16_t>, integer<int32_t>, integer<uint32_t>, integer<int64_t>, integer<uint64_t>, integer<size_t>, floating<float>, floating<double> };
    f[c.pick(21)](c);
}
template <class T> static void every(mc::Ctx& c)
{
    // all values of a narrow type fit
    typedef std::numeric_limits<T> S; typedef estd::numeric_limits<T> E;
    int hi = c.pick(256);
    for(int lo = 0; lo < (sizeof(T) == 1 ? 1 : 256); lo++)
    {
        T v = (T)(sizeof(T) == 1 ? hi : hi * 256 + lo);
        CHECK(v >= E::min() && v <= E::max(), "limits: %d is outside", (int)v);
        CHECK(in_base(v, 8).size() <= E::template length<8>::value && in_base(v, 10).size() <= E::template length<10>::value && in_base(v, 16).size() <= E::template length<16>::value, "length: %d takes more than promised", (int)v);
    }
}
SCENARIO_FN(every_i8, every<int8_t>, 1, 1);
SCENARIO_FN(every_u8, every<uint8_t>, 1, 1);
SCENARIO_FN(every_i16, every<int16_t>, 1, 1);
SCENARIO_FN(every_u16, every<uint16_t>, 1, 1);
SCENARIO(truth, 1, 1) { c.pick(1); typedef estd::numeric_limits<bool> E; CHECK(E::min() == false && E::max() == true && E::digits == 1 && E::digits10 == 0, "limits: bool"); }

// byte order
template <class T> static void swapped(mc::Ctx& c, T v)
{
    T r = estd::byteswap(v); unsigned char a[sizeof(T)], b[sizeof(T)];
    memcpy(a, &v, sizeof v); memcpy(b, &r, sizeof r);
    bool ok = true; for(size_t i = 0; i < sizeof(T); i++) ok &= a[i] == b[sizeof(T) - 1 - i];
    CHECK(ok, "swap: %llx becomes %llx", N(v), N(r));
    CHECK(estd::byteswap(r) == v, "swap: %llx twice is %llx", N(v), N(estd::byteswap(r)));
}
SCENARIO(swap16, 1, 1) { int hi = c.pick(256); for(int lo = 0; lo < 256; lo++) { swapped<uint16_t>(c, hi * 256 + lo); swapped<int16_t>(c, (int16_t)(hi * 256 + lo)); } c.observe((uint64_t)hi); }
static const int bytes[] = { 0, 1, 0x7f, 0x80, 0xff, 0xa5 };
SCENARIO(swap32, 1, 1) { uint32_t v = 0; for(int i = 0; i < 4; i++) v = v << 8 | (i < 2 ? (uint32_t)c.pick(256) : (uint32_t)c.of(bytes)); swapped<uint32_t>(c, v); swapped<int32_t>(c, (int32_t)v); swapped<uint32_t>(c, v << 16 | v >> 16); }
SCENARIO_SHARDED(swap64, 1, 1, 4, 8) { uint64_t v = 0; for(int i = 0; i < 8; i++) v = v << 8 | (uint64_t)c.of(bytes); swapped<uint64_t>(c, v); }
SCENARIO(native_order, 1, 1)
{
    c.pick(1); uint16_t one = 1; unsigned char first; memcpy(&first, &one, 1);
    CHECK((estd::endian::native == estd::endian::little) == (first == 1) && (estd::endian::native == estd::endian::big) == (first == 0) && estd::endian::little != estd::endian::big, "order: native");
}

// the smallest type that takes the values of both (as long as there is one)
template <class A, class B> static void promoted(mc::Ctx& c)
{
    typedef typename estd::promoted_type<A, B>::type P; typedef std::numeric_limits<P> L;
    bool mixed = std::is_signed<A>::value != std::is_signed<B>::value;
    bool wide_unsigned = mixed && (std::is_signed<A>::value ? sizeof(B) > sizeof(A) : sizeof(A) > sizeof(B));   // documented: the wider one turns signed
    CHECK(L::is_signed == (std::is_signed<A>::value || std::is_signed<B>::value), "promoted: %zu and %zu bytes signed %d", sizeof(A), sizeof(B), L::is_signed);
    CHECK(N(L::min()) <= N(std::numeric_limits<A>::min()) && N(L::min()) <= N(std::numeric_limits<B>::min()), "promoted: %zu and %zu bytes lose small values", sizeof(A), sizeof(B));
    if(!wide_unsigned) CHECK((unsigned long long)L::max() >= (unsigned long long)std::numeric_limits<A>::max() && (unsigned long long)L::max() >= (unsigned long long)std::numeric_limits<B>::max(), "promoted: %zu and %zu bytes lose large values", sizeof(A), sizeof(B));
    size_t most = sizeof(A) > sizeof(B) ? sizeof(A) : sizeof(B);
    CHECK(sizeof(P) <= most * (mixed && sizeof(A) == sizeof(B) ? 2 : 1), "promoted: %zu and %zu bytes become %zu", sizeof(A), sizeof(B), sizeof(P));
    typedef typename estd::common_type<A, B>::type C; typedef typename std::common_type<A, B>::type SC;
    CHECK((std::is_same<C, SC>::value), "common: %zu and %zu bytes", sizeof(A), sizeof(B));
    c.observe((uint64_t)sizeof(P));
}
template <class A> static void with(mc::Ctx& c)
{
    static void (*const f[])(mc::Ctx&) = { promoted<A, int8_t>, promoted<A, uint8_t>, promoted<A, int16_t>, promoted<A, uint16_t>, promoted<A, int32_t>, promoted<A, uint32_t> };
    f[c.pick(6)](c);
}
SCENARIO(promotion, 1, 1)
{
    static void (*const f[])(mc::Ctx&) = { with<int8_t>, with<uint8_t>, with<int16_t>, with<uint16_t>, with<int32_t>, with<uint32_t> };
    f[c.pick(6)](c);
}
