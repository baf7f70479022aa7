// Ratios at compile time, and quantities with units against exact rational arithmetic.
// ALSO: DEVICE
#include "mc.h"
#include <estd/ratio.h>
#include <estd/internal/units/base.h>
#include <estd/internal/units/bytes.h>
#include <estd/internal/units/percent.h>
#include <estd/internal/units/operators.hpp>
#include <estd/internal/units/ostream.h>
#include <estd/sstream.h>
#include <limits>
#include <ratio>
#include <utility>
#include <vector>
#include <cmath>

namespace eu = estd::internal::units;
typedef __int128 wide;
template <class T> static bool fits(wide v) { return v >= std::numeric_limits<T>::min() && v <= std::numeric_limits<T>::max(); }
#define N(x) ((long long)(x))

// ---- ratios: every pair of fractions in a grid, evaluated by the compiler
struct Row { long n1, d1, n2, d2, red_n, red_d, div_n, div_d, mul_n, mul_d, add_n, add_d, g, l; };
template <long n1, long d1, long n2, long d2> static constexpr Row row()
{
    typedef estd::ratio<n1, d1> A; typedef estd::ratio<n2, d2> B;
    typedef estd::ratio_divide<A, B> D; typedef estd::ratio_multiply<A, B> M; typedef estd::ratio_add<A, B> S;
    return { n1, d1, n2, d2, (long)A::type::num, (long)A::type::den, (long)D::num, (long)D::den, (long)M::num, (long)M::den, (long)S::num, (long)S::den,
        (long)estd::internal::gcd<n1, d2>::value, (long)estd::internal::lcm<n1, d2>::value };
}
static constexpr int G = 6;
static constexpr long marks[G] = { 1, 2, 3, 10, 60, 1024 };
template <size_t... i> static const Row* table(std::index_sequence<i...>)
{
    static const Row t[] = { row<marks[i / (G * G * G)], marks[i / (G * G) % G], marks[i / G % G], marks[i % G]>()... };
    return t;
}
static long gcd(long a, long b) { return b ? gcd(b, a % b) : a; }
SCENARIO(ratios, 1, 1)
{
    const Row* t = table(std::make_index_sequence<G * G * G * G>());
    const Row& r = t[c.pick(G * G * G * G)];
    auto same = [&](const char* what, long n, long d, long en, long ed)
    {
        long g = gcd(en, ed); en /= g; ed /= g;
        CHECK(n == en && d == ed, "ratio: %s of %ld/%ld and %ld/%ld is %ld/%ld, expected %ld/%ld", what, r.n1, r.d1, r.n2, r.d2, n, d, en, ed);
    };
    same("reduction", r.red_n, r.red_d, r.n1, r.d1);
    same("quotient", r.div_n, r.div_d, r.n1 * r.d2, r.d1 * r.n2);
    same("product", r.mul_n, r.mul_d, r.n1 * r.n2, r.d1 * r.d2);
    same("sum", r.add_n, r.add_d, r.n1 * r.d2 + r.n2 * r.d1, r.d1 * r.d2);
    CHECK(r.g == gcd(r.n1, r.d2), "ratio: gcd %ld %ld is %ld", r.n1, r.d2, r.g);
    CHECK(r.l == r.n1 / gcd(r.n1, r.d2) * r.d2, "ratio: lcm %ld %ld is %ld", r.n1, r.d2, r.l);
    c.observe((uint64_t)r.add_n * 7919 + r.div_n);
}
template <class E, class S> static bool same_ratio() { return E::num == S::num && E::den == S::den; }
SCENARIO(prefixes, 1, 1)
{
    static bool (*const f[])() = { same_ratio<estd::pico, std::pico>, same_ratio<estd::nano, std::nano>, same_ratio<estd::micro, std::micro>, same_ratio<estd::milli, std::milli>, same_ratio<estd::centi, std::centi>, same_ratio<estd::deci, std::deci>,
        same_ratio<estd::deca, std::deca>, same_ratio<estd::kilo, std::kilo>, same_ratio<estd::mega, std::mega>, same_ratio<estd::giga, std::giga>, same_ratio<estd::tera, std::tera> };
    int i = c.pick(11);
    CHECK(f[i](), "ratio: prefix %d", i);
}

// ---- quantities
struct length_tag {};
namespace estd { namespace internal { namespace units { template <> struct traits<length_tag> { static constexpr const char* name() { return "metre"; } static constexpr const char* abbrev() { return "m"; } }; } } }
template <class R, class P = estd::ratio<1>, class F = eu::passthrough<R> > using length = eu::unit_base<R, P, length_tag, F>;

template <class T> static std::vector<long long> points()
{
    typedef std::numeric_limits<T> L;
    std::vector<long long> v;
    if(sizeof(T) == 1) { for(int i = L::min(); i <= L::max(); i++) v.push_back(i); return v; }
    auto add = [&](wide x) { if(fits<T>(x)) { for(long long y : v) if(y == (long long)x) return; v.push_back((long long)x); } };
    static const long long m[] = { 0, 1, 2, 3, 5, 9, 10, 11, 50, 97, 99, 100, 101, 127, 128, 255, 256, 500, 974, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 9999, 10240, 32767, 32768, 65535, 65536, 102400, 999999, 1000000, 1048575, 1048576, 2147483647, 2147483648LL, 4294967295LL, 4294967296LL, 1000000000000LL };
    for(long long x : m) { add(x); add(-x); }
    for(int d = 0; d < 3; d++) { add((wide)L::max() - d); add((wide)L::min() + d); }
    return v;
}
struct Conv { bool ok, precise; long long v; };
template <class To, class From> static Conv convert(long long count)
{
    // the arithmetic type is the wider of both counts and the 64 bit ratio
    wide n = (wide)From::period::num * To::period::den, d = (wide)From::period::den * To::period::num;
    wide a = n, b = d; while(b) { wide t = a % b; a = b; b = t; }
    n /= a; d /= a;
    wide scaled = (wide)count * n;
    if(!fits<int64_t>(scaled) || (count < 0 && std::is_unsigned<typename To::root>::value)) return { false, false, 0 };
    wide q = scaled / d;
    return { fits<typename To::root>(q), scaled % d == 0, (long long)q };
}
// a unit type with its count type spelled out
template <class R, class P> struct U { typedef length<R, P> unit; typedef R root; typedef P period; };

template <class A, class B> static void pair(mc::Ctx& c)
{
    typedef typename A::unit UA; typedef typename B::unit UB;
    static const std::vector<long long> as = points<typename A::root>(), bs = points<typename B::root>();
    typedef decltype(UA((typename A::root)0) + UB((typename B::root)0)) CT;
    struct C { typedef typename CT::root_rep root; typedef typename CT::period period; };
    long long x = as[c.pick(as.size())];
    UA a((typename A::root)x);
    CHECK(N(a.count()) == x && N(a.root_count()) == x, "unit: %lld counted as %lld", x, N(a.count()));
    Conv to = convert<B, A>(x);
    if(to.ok)
    {
        UB b(a, eu::relaxed_narrow_t{});
        CHECK(N(b.count()) == to.v, "convert: %lld of %ld/%ld is %lld of %ld/%ld, expected %lld", x, (long)A::period::num, (long)A::period::den, N(b.count()), (long)B::period::num, (long)B::period::den, to.v);
        UB b2((typename B::root)77); b2 = a;
        CHECK(N(b2.count()) == to.v, "convert: assigning %lld gives %lld, expected %lld", x, N(b2.count()), to.v);
        c.observe((uint64_t)to.v);
    }
    Conv ca = convert<C, A>(x);
    CHECK(!ca.ok || ca.precise, "common: %lld loses precision", x);
    if(!ca.ok) return;
    for(long long y : bs)
    {
        Conv cb = convert<C, B>(y);
        if(!cb.ok) continue;
        CHECK(cb.precise, "common: %lld loses precision", y);
        UB b((typename B::root)y);
        wide l = (wide)x * A::period::num * B::period::den, r = (wide)y * B::period::num * A::period::den;
        CHECK((a == b) == (l == r) && (a != b) == (l != r), "compare: %lld of %ld/%ld equals %lld of %ld/%ld: %d %d", x, (long)A::period::num, (long)A::period::den, y, (long)B::period::num, (long)B::period::den, a == b, a != b);
        CHECK((a < b) == (l < r) && (a > b) == (l > r) && (a <= b) == (l <= r) && (a >= b) == (l >= r), "compare: order of %lld of %ld/%ld and %lld of %ld/%ld", x, (long)A::period::num, (long)A::period::den, y, (long)B::period::num, (long)B::period::den);
        if(fits<typename C::root>((wide)ca.v + cb.v)) CHECK((wide)(a + b).count() == (wide)ca.v + cb.v, "add: %lld + %lld is %lld", x, y, N((a + b).count()));
        if(fits<typename C::root>((wide)ca.v - cb.v)) CHECK((wide)(a - b).count() == (wide)ca.v - cb.v, "subtract: %lld - %lld is %lld", x, y, N((a - b).count()));
    }
}
template <class... T> struct list {};
typedef list<U<int8_t, estd::ratio<1> >, U<uint8_t, estd::ratio<1, 10> >, U<uint16_t, estd::ratio<100, 1024> >, U<int16_t, estd::milli>, U<int32_t, estd::ratio<1> >, U<uint32_t, estd::kilo>, U<int64_t, estd::micro>, U<int64_t, estd::ratio<1852> > > All;
template <class A, class... B> static void pairs(mc::Ctx& c, list<B...>) { static void (*const f[])(mc::Ctx&) = { &pair<A, B>... }; f[c.pick(sizeof...(B))](c); }
template <class A> static void with(mc::Ctx& c) { pairs<A>(c, All()); }
template <class R, class P> static void each(mc::Ctx& c) { with<U<R, P> >(c); }
static void tenths(mc::Ctx& c) { each<uint8_t, estd::ratio<1, 10> >(c); }
static void adc(mc::Ctx& c) { each<uint16_t, estd::ratio<100, 1024> >(c); }
static void thousandths(mc::Ctx& c) { each<int16_t, estd::milli>(c); }
static void miles(mc::Ctx& c) { each<int64_t, estd::ratio<1852> >(c); }
static void millionths(mc::Ctx& c) { each<int64_t, estd::micro>(c); }
static void whole8(mc::Ctx& c) { each<int8_t, estd::ratio<1> >(c); }
static void whole32(mc::Ctx& c) { each<int32_t, estd::ratio<1> >(c); }
static void thousands(mc::Ctx& c) { each<uint32_t, estd::kilo>(c); }
SCENARIO_FN(pairs_tenths, tenths, 1, 1);
SCENARIO_FN(pairs_adc, adc, 1, 1);
SCENARIO_FN(pairs_thousandths, thousandths, 1, 1);
SCENARIO_FN(pairs_miles, miles, 1, 1);
SCENARIO_FN(pairs_millionths, millionths, 1, 1);
SCENARIO_FN(pairs_whole8, whole8, 1, 1);
SCENARIO_FN(pairs_whole32, whole32, 1, 1);
SCENARIO_FN(pairs_thousands, thousands, 1, 1);

// every sequence of in-place operations
SCENARIO(in_place, 6, 7)
{
    length<int64_t, estd::milli> v(5); wide w = 5;
    for(int i = 0; i < c.bound; i++)
    {
        switch(c.pick(7))
        {
            case 0: v += length<int64_t, estd::milli>(7); w += 7; break;
            case 1: v -= length<int64_t, estd::milli>(9); w -= 9; break;
            case 2: v += length<int32_t>(3); w += 3000; break;
            case 3: v -= length<int8_t, estd::ratio<1, 10> >(2); w -= 200; break;
            case 4: ++v; ++w; break;
            case 5: v = -v; w = -w; break;
            case 6: v = length<int16_t, estd::ratio<1, 4> >(6); w = 1500; break;
        }
        CHECK((wide)v.count() == w, "in place: %lld, expected %lld", N(v.count()), N(w));
        c.observe((uint64_t)w);
    }
}
SCENARIO(plain_numbers, 1, 1)
{
    int x = c.pick(256) - 128;
    for(int y = -128; y < 128; y++)
    {
        length<int16_t> v(x);
        CHECK((v == y) == (x == y) && (v < y) == (x < y) && (v > y) == (x > y), "number: %d against %d", x, y);
        v += y; CHECK(v.count() == x + y, "number: %d += %d is %d", x, y, (int)v.count());
        v -= (int8_t)y; CHECK(v.count() == x, "number: -= %d is %d", y, (int)v.count());
        v -= y; CHECK(v.count() == x - y, "number: %d -= %d is %d", x, y, (int)v.count());
        length<int, estd::ratio<1>, eu::adder<int, -40> > s(x); // what it means, not what is stored
        CHECK((s == y) == (x - 40 == y) && (s < y) == (x - 40 < y) && (s > y) == (x - 40 > y), "number: %d less 40 against %d", x, y);
    }
    // a number wider than the count is compared whole
    static const long long wide_numbers[] = { -1000000000000LL, -65536, -65535, -257, -256, -255, 255, 256, 257, 300, 511, 512, 65535, 65536, 65537, 4294967296LL, 4294967297LL, 1000000000000LL };
    for(long long y : wide_numbers)
    {
        length<int8_t> n(x); length<int16_t> m(x); length<int64_t> l(x); long long z = y + x;
        CHECK((n == z) == (x == z) && (n < z) == (x < z) && (n > z) == (x > z), "number: %d against %lld", x, z);
        CHECK((m == z) == (x == z) && (m < z) == (x < z) && (m > z) == (x > z), "number: %d against %lld", x, z);
        CHECK((l == z) == (x == z) && (l < z) == (x < z) && (l > z) == (x > z), "number: %d against %lld", x, z);
        unsigned u = x + 128; length<uint8_t> b(u); if(z >= 0) CHECK((b == (uint64_t)z) == (u == (uint64_t)z) && (b < (uint64_t)z) == (u < (uint64_t)z) && (b > (uint64_t)z) == (u > (uint64_t)z), "number: %u against %lld", u, z);
    }
}

// fractional counts
SCENARIO(fractional, 1, 1)
{
    static const double marks[] = { 0, 0.25, 0.5, 0.999, 1, 1.5, 2.75, 9.99, 10, 99.5, 100, 1023, 1024, 1e6 };
    double x = c.of(marks); if(c.flip()) x = -x;
    length<double> m(x); length<double, estd::milli> mm(m); length<double, estd::kilo> km(m);
    auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); };
    CHECK(m.count() == x && near(mm.count(), x * 1000) && near(km.count(), x / 1000), "fraction: %g is %g milli, %g kilo", x, mm.count(), km.count());
    length<int32_t, estd::milli> imm(0); imm = m;
    CHECK(imm.count() == (int)(x * 1000), "fraction: %g is %d whole milli, expected %d", x, (int)imm.count(), (int)(x * 1000));
    length<double> back(imm);
    CHECK(near(back.count(), (int)(x * 1000) / 1000.0), "fraction: %d milli is %g", (int)imm.count(), back.count());
    for(double y : marks)
    {
        length<double> n(y);
        CHECK((m == n) == (x == y), "fraction: %g equals %g", x, y);
        length<double> t(m); t += n; CHECK(near(t.count(), x + y), "fraction: %g += %g is %g", x, y, t.count());
        t -= n; t -= n; CHECK(near(t.count(), x - y), "fraction: %g -= %g is %g", x, y, t.count());
    }
}

// counts with an offset: the stored value is shifted from the meaning
template <class R, int off> using Shift = length<R, estd::ratio<1>, eu::adder<int, off> >;
template <class R, int off> using Shift10 = length<R, estd::ratio<1, 10>, eu::subtractor<int, off> >;
SCENARIO(shifted, 1, 1)
{
    int root = c.pick(512) - 256;
    Shift<int, -40> s(root); int means = root - 40;
    CHECK(s.count() == means && s.root_count() == root, "shift: %d means %d", root, s.count());
    length<int> plain(s); CHECK(plain.count() == means, "shift: %d converts to %d, expected %d", root, plain.count(), means);
    Shift<int, -40> same(plain); CHECK(same.count() == means && same.root_count() == root, "shift: %d comes back as %d", means, same.count());
    Shift<int, -40> copy(s); CHECK(copy.count() == means, "shift: copy of %d is %d", means, copy.count());
    Shift<long, -40> wider(s); CHECK(wider.count() == means, "shift: %d in a wider count is %d", means, wider.count());
    Shift<int, 100> other(s); CHECK(other.count() == means && other.root_count() == means - 100, "shift: %d with another offset is %d", means, other.count());
    Shift10<int, 7> tenth(s); CHECK(tenth.count() == means * 10 && tenth.root_count() == means * 10 + 7, "shift: %d in tenths is %d", means, tenth.count());
    Shift10<int, 7> assigned(0); assigned = s; CHECK(assigned.count() == means * 10, "shift: assigning %d in tenths gives %d", means, assigned.count());
    Shift<int, -40> from10(tenth); CHECK(from10.count() == means, "shift: %d from tenths is %d", means, from10.count());
    for(int r2 = -256; r2 < 256; r2++)
    {
        Shift<int, -40> t(r2);
        CHECK((s == t) == (root == r2) && (s < t) == (root < r2) && (s > t) == (root > r2), "shift: order of %d and %d", root, r2);
    }
    s.root_count(3); CHECK(s.count() == -37, "shift: set to 3 means %d", s.count());
}

// a share of a range
SCENARIO(shares, 1, 1)
{
    int p = c.pick(201);
    static const int ends[] = { -1000, -3, 0, 1, 7, 100, 255, 12345 };
    int lo = c.of(ends), hi = c.of(ends);
    length<int> a(lo), b(hi);
    CHECK(eu::get_from_percent(eu::percent<int>(p), a, b).count() == lo + (hi - lo) * p / 100, "share: %d%% of %d..%d is %d", p, lo, hi, eu::get_from_percent(eu::percent<int>(p), a, b).count());
    CHECK(eu::get_from_percent(eu::percent<int, estd::ratio<1, 10> >(p), a, b).count() == lo + (hi - lo) * p / 1000, "share: %d per mille of %d..%d", p, lo, hi);
    CHECK(eu::get_from_percent(eu::percent<int, estd::ratio<100, 1024> >(p), a, b).count() == lo + (hi - lo) * p * 100 / 102400, "share: %d of 1024 of %d..%d", p, lo, hi);
    CHECK(eu::get_from_percent(eu::percent<int>(p), b).count() == hi * p / 100, "share: %d%% of %d", p, hi);
    double d = eu::get_from_percent(eu::percent<double>(p + 0.5), length<double>(lo), length<double>(hi)).count();
    CHECK(std::fabs(d - (lo + (hi - lo) * (p + 0.5) / 100)) < 1e-6, "share: %g%% of %d..%d is %g", p + 0.5, lo, hi, d);
}

// the same of narrow counts, where the product does not fit the count
template <class T, class P, class R> static void narrow_share(mc::Ctx& c)
{
    static const std::vector<long long> all = points<T>(); int p = c.pick(101); long long lo = c.of(all);
    for(long long hi : all)
    {
        if(hi < lo || hi - lo > std::numeric_limits<T>::max()) continue;
        long long want = lo + (hi - lo) * p / 100, got = eu::get_from_percent(eu::percent<P>((P)p), length<T, R>((T)lo), length<T, R>((T)hi)).count();
        CHECK(got == want, "share: %d%% of %lld..%lld is %lld, expected %lld", p, lo, hi, got, want);
        if(hi >= 0) { got = eu::get_from_percent(eu::percent<P>((P)p), length<T, R>((T)hi)).count(); CHECK(got == hi * p / 100, "share: %d%% of %lld is %lld", p, hi, got); }
    }
    c.observe((uint64_t)p);
}
SCENARIO_FN(shares_u8, (narrow_share<uint8_t, uint8_t, estd::ratio<1> >), 1, 1);
SCENARIO_FN(shares_i8, (narrow_share<int8_t, int8_t, estd::milli>), 1, 1);
SCENARIO_FN(shares_i16, (narrow_share<int16_t, uint8_t, estd::kilo>), 1, 1);
SCENARIO_FN(shares_u16, (narrow_share<uint16_t, uint16_t, estd::ratio<1> >), 1, 1);

// rendering
template <class Unit> static std::string shown(const Unit& u, int how)
{
    estd::layer1::ostringstream<64> out;
    if(how == 0) out << estd::put_unit(u);
    else if(how == 1) out << estd::put_unit(u, false);
    else if(how == 2) eu::write_abbrev(out, u, true);
    else eu::write(out, u);
    std::string r; for(char ch : out.rdbuf()->str()) r += ch;
    return r;
}
template <class R, class P> static void render(mc::Ctx& c, const char* prefix, const char* name)
{
    static const std::vector<long long> v = points<R>();
    long long x = v[c.pick(v.size())];
    length<R, P> u((R)x);
    std::string n = std::to_string(x), want[] = { n + prefix + "m", n + " " + name + "metre", n + " " + prefix + "m", n + " " + name + "metre" };
    for(int how = 0; how < 4; how++) CHECK(shown(u, how) == want[how], "render: %s, expected %s", mc::show(shown(u, how)).c_str(), mc::show(want[how]).c_str());
}
SCENARIO(rendered, 1, 1)
{
    switch(c.pick(6))
    {
        case 0: render<int, estd::ratio<1> >(c, "", ""); break;
        case 1: render<int16_t, estd::milli>(c, "m", "milli"); break;
        case 2: render<unsigned, estd::kilo>(c, "k", "kilo"); break;
        case 3: render<int, estd::centi>(c, "c", "centi"); break;
        case 4: render<int, estd::micro>(c, "u", "micro"); break;
        case 5: render<int, estd::mega>(c, "M", "mega"); break;
    }
}
SCENARIO(rendered_fractions, 1, 1)
{
    // two digits behind the point, rounded towards zero
    long k = c.pick(40001) - 20000;
    double x = k / 64.0;
    std::string s = shown(length<double>(x), 0);
    double a = std::fabs(x); long whole = (long)a, hundredths = (long)((a - whole) * 100);
    char want[32]; sprintf(want, "%s%ld.%02ldm", x < 0 && (whole || hundredths) ? "-" : "", whole, hundredths);
    CHECK(s == want, "render: %g is %s, expected %s", x, mc::show(s).c_str(), want);
    c.observe((uint64_t)k);
}
SCENARIO(bytes, 1, 1)
{
    unsigned k = c.pick(5000);
    eu::kilobytes<unsigned> kb(k); eu::bytes<unsigned> b(kb);
    CHECK(b.count() == k * 1024u, "bytes: %u kB is %u", k, b.count());
    CHECK(eu::kilobytes<unsigned>(eu::bytes<unsigned>(k * 37)).count() == k * 37 / 1024, "bytes: %u", k * 37);
    CHECK(eu::bytes<uint64_t>(eu::megabytes<uint64_t>(k)).count() == (uint64_t)k << 20 && eu::bytes<uint64_t>(eu::gigabytes<uint64_t>(k)).count() == (uint64_t)k << 30, "bytes: %u mega, giga", k);
    CHECK(shown(b, 0) == std::to_string(b.count()) + "B" && shown(kb, 0) == std::to_string(k) + "kB" && shown(eu::megabytes<unsigned>(k), 1) == std::to_string(k) + " megabytes", "bytes: rendered as %s", shown(kb, 0).c_str());
}
