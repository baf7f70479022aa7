// Durations, time points, times of day and calendar dates against exact rational arithmetic.
// ALSO: DEVICE
#include "mc.h"
#include <estd/chrono.h>
#include <limits>
#include <type_traits>
#include <vector>
#include <ctime>

namespace ec = estd::chrono;
typedef __int128 wide;

template <class T> static bool fits(wide v) { return v >= std::numeric_limits<T>::min() && v <= std::numeric_limits<T>::max(); }
static wide gcd(wide a, wide b) { if(a < 0) a = -a; if(b < 0) b = -b; while(b) { wide t = a % b; a = b; b = t; } return a; }

// exact value in seconds, as a fraction
struct Q { wide n, d; };
template <class D> static Q exact(wide count) { return { count * D::period::num, D::period::den }; }
static int order(Q a, Q b) { wide l = a.n * b.d, r = b.n * a.d; return l < r ? -1 : l > r; }

// what a conversion from `count` ticks of From should give in To; ok=false where it is not representable
struct Conv { bool ok, precise; long long v; };
template <class To, class From> static Conv convert(long long count)
{
    wide n = (wide)From::period::num * To::period::den, d = (wide)From::period::den * To::period::num, g = gcd(n, d);
    n /= g; d /= g;
    wide scaled = (wide)count * n;
    if(!fits<int64_t>(scaled) || !fits<int64_t>(n)) return { false, false, 0 };
    if(count < 0 && std::is_unsigned<typename To::rep>::value) return { false, false, 0 };
    wide q = scaled / d;
    return { fits<typename To::rep>(q), scaled % d == 0, (long long)q };
}

template <class T> static std::vector<long long> points(bool all)
{
    std::vector<long long> v;
    typedef std::numeric_limits<T> L;
    auto add = [&](wide x) { if(fits<T>(x)) { for(long long y : v) if(y == (long long)x) return; v.push_back((long long)x); } };
    if(all && sizeof(T) == 1) { for(int i = L::min(); i <= L::max(); i++) v.push_back(i); return v; }
    static const long long marks[] = { 0, 1, 2, 3, 4, 5, 6, 7, 10, 14, 15, 16, 59, 60, 61, 99, 100, 119, 120, 127, 128, 255, 256, 333, 334, 500, 999, 1000, 1001, 1500, 2000, 3599, 3600, 3601, 7200, 9999,
        32767, 32768, 65535, 65536, 86399, 86400, 86401, 100000, 999999, 1000000, 1000001, 3600000, 86400000, 1000000000LL, 2147483647LL, 2147483648LL, 4294967295LL, 1000000000000LL, 123456789012345LL, 9007199254740993LL };
    for(long long m : marks) { add(m); add(-m); }
    for(int d = 0; d < 3; d++) { add((wide)L::max() - d); add((wide)L::min() + d); }
    return v;
}

typedef ec::duration<int8_t, estd::milli> I8ms;
typedef ec::duration<uint8_t> U8s;
typedef ec::duration<int16_t, estd::milli> I16ms;
typedef ec::duration<uint16_t, estd::micro> U16us;
typedef ec::duration<int32_t, estd::ratio<1, 15> > Fake;
typedef ec::duration<uint32_t, estd::deci> U32ds;
typedef ec::duration<int16_t, estd::ratio<4, 3> > Odd;
typedef ec::duration<int64_t, estd::ratio<1, 7> > Seventh;
typedef ec::duration<uint32_t, estd::milli> U32ms;

template <class... T> struct list {};
typedef list<I8ms, U8s, I16ms, U16us, Fake, U32ds, Odd, Seventh, U32ms, ec::nanoseconds, ec::microseconds, ec::milliseconds, ec::seconds, ec::minutes, ec::hours, ec::days, ec::weeks, ec::months, ec::years> All;

#define N(x) ((long long)(x))

#ifdef PAIRS
template <class A, class B> static void pair(mc::Ctx& c)
{
    static const std::vector<long long> as = points<typename A::rep>(true), bs = points<typename B::rep>(true);
    typedef decltype(A(1) + B(1)) CT;
    long long x = as[c.pick(as.size())];
    A a((typename A::rep)x);
    CHECK(N(a.count()) == x, "duration: %lld ticks counted as %lld", x, N(a.count()));
    Conv to = convert<B, A>(x);
    if(to.ok)
    {
        B b1 = a, b2 = ec::duration_cast<B>(a);
        CHECK(N(b1.count()) == to.v, "convert: %lld ticks of %lld/%lld s become %lld of %lld/%lld s, expected %lld", x, N(A::period::num), N(A::period::den), N(b1.count()), N(B::period::num), N(B::period::den), to.v);
        CHECK(N(b2.count()) == to.v, "convert: duration_cast of %lld gives %lld, expected %lld", x, N(b2.count()), to.v);
        B b3; b3 = a; CHECK(N(b3.count()) == to.v, "convert: assigning %lld gives %lld, expected %lld", x, N(b3.count()), to.v);
        c.observe(to.v);
    }
    Conv ca = convert<CT, A>(x);
    CHECK(!ca.ok || ca.precise, "common: %lld ticks lose precision in the common type", x);
    if(!ca.ok) return;
    for(long long y : bs)
    {
        Conv cb = convert<CT, B>(y);
        CHECK(!cb.ok || cb.precise, "common: %lld ticks lose precision in the common type", y);
        if(!cb.ok) continue;
        B b((typename B::rep)y);
        int o = order(exact<A>(x), exact<B>(y));
        CHECK((a == b) == (o == 0) && (a != b) == (o != 0), "compare: %lld of %lld/%lld s and %lld of %lld/%lld s equal: %d %d", x, N(A::period::num), N(A::period::den), y, N(B::period::num), N(B::period::den), a == b, a != b);
        CHECK((a < b) == (o < 0) && (a > b) == (o > 0) && (a <= b) == (o <= 0) && (a >= b) == (o >= 0), "compare: order of %lld of %lld/%lld s and %lld of %lld/%lld s", x, N(A::period::num), N(A::period::den), y, N(B::period::num), N(B::period::den));
        if(fits<typename CT::rep>((wide)ca.v + cb.v))
        {
            auto s = a + b;
            CHECK((wide)s.count() == (wide)ca.v + cb.v, "add: %lld + %lld is %lld", x, y, N(s.count()));
        }
        if(fits<typename CT::rep>((wide)ca.v - cb.v))
        {
            auto s = a - b;
            CHECK((wide)s.count() == (wide)ca.v - cb.v, "subtract: %lld - %lld is %lld", x, y, N(s.count()));
        }
    }
}
template <class A, class... B> static void pairs(mc::Ctx& c, list<B...>)
{
    static void (*const f[])(mc::Ctx&) = { &pair<A, B>... };
    f[c.pick(sizeof...(B))](c);
}
template <class A> static void with(mc::Ctx& c) { pairs<A>(c, All()); }
#if PAIRS == 1
SCENARIO_FN(pairs_i8ms, with<I8ms>, 1, 1);
SCENARIO_FN(pairs_u8s, with<U8s>, 1, 1);
SCENARIO_FN(pairs_i16ms, with<I16ms>, 1, 1);
SCENARIO_FN(pairs_u16us, with<U16us>, 1, 1);
SCENARIO_FN(pairs_fake, with<Fake>, 1, 1);
SCENARIO_FN(pairs_u32ds, with<U32ds>, 1, 1);
SCENARIO_FN(pairs_odd, with<Odd>, 1, 1);
#else
SCENARIO_FN(pairs_seventh, with<Seventh>, 1, 1);
SCENARIO_FN(pairs_nano, with<ec::nanoseconds>, 1, 1);
SCENARIO_FN(pairs_milli, with<ec::milliseconds>, 1, 1);
SCENARIO_FN(pairs_seconds, with<ec::seconds>, 1, 1);
SCENARIO_FN(pairs_minutes, with<ec::minutes>, 1, 1);
SCENARIO_FN(pairs_hours, with<ec::hours>, 1, 1);
SCENARIO_FN(pairs_days, with<ec::days>, 1, 1);
SCENARIO_FN(pairs_years, with<ec::years>, 1, 1);
#endif
#else
// one duration type on its own: every pair of 8-bit values, marks for the wider ones
template <class A> struct absolute
{
    template <class R = typename A::rep> static typename std::enable_if<std::is_signed<R>::value>::type check(A a, long long x)
    {
        auto& c = *mc::current;
        if(!fits<typename A::rep>(-(wide)x)) return;
        CHECK(N((-a).count()) == -x, "negate: %lld gives %lld", x, N((-a).count()));
        CHECK(N(ec::abs(a).count()) == (x < 0 ? -x : x), "abs: %lld gives %lld", x, N(ec::abs(a).count()));
    }
    template <class R = typename A::rep> static typename std::enable_if<!std::is_signed<R>::value>::type check(A a, long long x)
    {
        auto& c = *mc::current;
        CHECK(N(ec::abs(a).count()) == x, "abs: %lld gives %lld", x, N(ec::abs(a).count()));
    }
};
template <class A> static void alone(mc::Ctx& c)
{
    typedef typename A::rep rep;
    static const std::vector<long long> v = points<rep>(true);
    long long x = v[c.pick(v.size())];
    A a((rep)x);
    absolute<A>::check(a, x);
    CHECK(N((+a).count()) == x, "duration: +%lld gives %lld", x, N((+a).count()));
    CHECK(N(A::zero().count()) == 0 && A::min().count() == std::numeric_limits<rep>::min() && A::max().count() == std::numeric_limits<rep>::max(), "duration: limits are %lld %lld %lld", N(A::zero().count()), N(A::min().count()), N(A::max().count()));
    for(long long y : v)
    {
        A b((rep)y);
        if(fits<rep>((wide)x + y)) { A t = a; A& r = (t += b); CHECK(N(t.count()) == x + y && &r == &t, "add in place: %lld + %lld is %lld", x, y, N(t.count())); CHECK(N((a + b).count()) == x + y, "add: %lld + %lld", x, y); }
        if(fits<rep>((wide)x - y)) { A t = a; t -= b; CHECK(N(t.count()) == x - y, "subtract in place: %lld - %lld is %lld", x, y, N(t.count())); CHECK(N((a - b).count()) == x - y, "subtract: %lld - %lld", x, y); }
        if(fits<rep>((wide)x * y) && fits<int64_t>((wide)x * y)) { A t = a; t *= (rep)y; CHECK(N(t.count()) == x * y, "multiply in place: %lld * %lld is %lld", x, y, N(t.count())); CHECK(N((a * (rep)y).count()) == x * y, "multiply: %lld * %lld is %lld", x, y, N((a * (rep)y).count())); }
        CHECK((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "compare: %lld with %lld of the same kind", x, y);
    }
    c.observe((uint64_t)x);
}
SCENARIO_FN(alone_i8, alone<I8ms>, 1, 1);
SCENARIO_FN(alone_u8, alone<U8s>, 1, 1);
SCENARIO_FN(alone_i16, alone<I16ms>, 1, 1);
SCENARIO_FN(alone_u16, alone<U16us>, 1, 1);
SCENARIO_FN(alone_i32, alone<ec::minutes>, 1, 1);
SCENARIO_FN(alone_u32, alone<U32ds>, 1, 1);
SCENARIO_FN(alone_i64, alone<ec::seconds>, 1, 1);

// every sequence of in-place operations
SCENARIO(in_place, 6, 7)
{
    ec::milliseconds d(3); wide w = 3;
    for(int i = 0; i < c.bound; i++)
    {
        switch(c.pick(7))
        {
            case 0: d += ec::milliseconds(7); w += 7; break;
            case 1: d -= ec::milliseconds(11); w -= 11; break;
            case 2: d *= -3; w *= -3; break;
            case 3: d += ec::seconds(2); w += 2000; break;
            case 4: d -= ec::minutes(1); w -= 60000; break;
            case 5: d = -d; w = -w; break;
            case 6: d = ec::abs(d); w = w < 0 ? -w : w; break;
        }
        CHECK((wide)d.count() == w, "in place: %lld, expected %lld", N(d.count()), N(w));
        c.observe((uint64_t)d.count());
    }
}

// to and from the platform's durations
template <class A, class S> static void platform(mc::Ctx& c)
{
    typedef ec::duration<typename S::rep, estd::ratio<S::period::num, S::period::den> > E;
    static const std::vector<long long> v = points<typename S::rep>(true), w = points<typename A::rep>(true);
    if(c.flip())
    {
        long long x = v[c.pick(v.size())];
        S s((typename S::rep)x);
        Conv r = convert<A, E>(x);
        if(!r.ok) return;
        A a = s;
        CHECK(N(a.count()) == r.v, "platform: %lld becomes %lld, expected %lld", x, N(a.count()), r.v);
        A b = ec::duration_cast<A>(s);
        CHECK(N(b.count()) == r.v, "platform: cast of %lld gives %lld, expected %lld", x, N(b.count()), r.v);
    }
    else
    {
        long long x = w[c.pick(w.size())];
        A a((typename A::rep)x);
        std::chrono::duration<typename A::rep, std::ratio<A::period::num, A::period::den> > s = a;
        CHECK(N(s.count()) == x, "platform: %lld leaves as %lld", x, N(s.count()));
        A back = s;
        CHECK(back == a, "platform: %lld comes back as %lld", x, N(back.count()));
    }
}
SCENARIO(platform_durations, 1, 1)
{
    switch(c.pick(8))
    {
        case 0: platform<ec::seconds, std::chrono::seconds>(c); break;
        case 1: platform<ec::milliseconds, std::chrono::seconds>(c); break;
        case 2: platform<ec::seconds, std::chrono::milliseconds>(c); break;
        case 3: platform<ec::minutes, std::chrono::nanoseconds>(c); break;
        case 4: platform<ec::hours, std::chrono::minutes>(c); break;
        case 5: platform<I16ms, std::chrono::microseconds>(c); break;
        case 6: platform<U8s, std::chrono::duration<int16_t, std::milli> >(c); break;
        case 7: platform<Fake, std::chrono::milliseconds>(c); break;
    }
}

// time points
struct tick_clock
{
    typedef ec::duration<int64_t, estd::ratio<1, 15> > duration;
    typedef duration::rep rep; typedef duration::period period;
    typedef ec::time_point<tick_clock> time_point;
};
namespace estd { namespace chrono { namespace internal { template <> struct clock_traits<tick_clock> : unix_epoch_clock_traits {}; } } }
struct plain_clock { typedef ec::duration<int32_t, estd::milli> duration; };

SCENARIO(time_points, 5, 6)
{
    typedef tick_clock::time_point T;
    T t; wide w = 0;
    CHECK(N(t.time_since_epoch().count()) == 0, "time: starts at %lld", N(t.time_since_epoch().count()));
    if(c.flip()) { t = T(tick_clock::duration(-7)); w = -7; }
    for(int i = 0; i < c.bound; i++)
    {
        T u = t; wide v = w;
        switch(c.pick(7))
        {
            case 0: u += tick_clock::duration(4); v += 4; break;
            case 1: u -= tick_clock::duration(9); v -= 9; break;
            case 2: u = t + tick_clock::duration(100); v += 100; break;
            case 3: u = t - tick_clock::duration(33); v -= 33; break;
            case 4: u += ec::seconds(2); v += 30; break;
            case 5: u = t - ec::minutes(1); v -= 900; break;
            case 6: break;
        }
        CHECK((wide)u.time_since_epoch().count() == v, "time: %lld, expected %lld", N(u.time_since_epoch().count()), N(v));
        CHECK((wide)t.time_since_epoch().count() == w, "time: the operand changed to %lld", N(t.time_since_epoch().count()));
        CHECK((wide)(u - t).count() == v - w, "time: difference %lld, expected %lld", N((u - t).count()), N(v - w));
        CHECK((u == t) == (v == w) && (u != t) == (v != w) && (u < t) == (v < w) && (u > t) == (v > w) && (u >= t) == (v >= w), "time: order of %lld and %lld", N(v), N(w));
        ec::time_point<tick_clock, ec::milliseconds> ms = u;
        CHECK((wide)ms.time_since_epoch().count() == v * 1000 / 15, "time: %lld ticks are %lld ms", N(v), N(ms.time_since_epoch().count()));
        CHECK((wide)(ms - t).count() == (wide)ms.time_since_epoch().count() * 3 - w * 200, "time: mixed difference %lld", N((ms - t).count()));
        CHECK((ms < t) == ((v * 1000 / 15) * 15 < w * 1000) && (ms == t) == ((v * 1000 / 15) * 15 == w * 1000) && (ms >= t) == ((v * 1000 / 15) * 15 >= w * 1000), "time: mixed order");
        t = u; w = v;
        c.observe((uint64_t)v);
    }
}
SCENARIO(platform_times, 4, 5)
{
    typedef std::chrono::time_point<std::chrono::system_clock, std::chrono::milliseconds> P;
    P p; long long ms = 0;
    for(int i = 0; i < c.bound; i++)
    {
        switch(c.pick(6))
        {
            case 0: p += ec::seconds(3); ms += 3000; break;
            case 1: p -= ec::milliseconds(250); ms -= 250; break;
            case 2: p = p + ec::minutes(2); ms += 120000; break;
            case 3: p = p - ec::hours(1); ms -= 3600000; break;
            case 4: p = p + U8s(200); ms += 200000; break;
            case 5: p -= I16ms(-77); ms += 77; break;
        }
        CHECK(N(p.time_since_epoch().count()) == ms, "platform time: %lld, expected %lld", N(p.time_since_epoch().count()), ms);
        tick_clock::time_point t(p);
        CHECK(N(t.time_since_epoch().count()) == ms * 15 / 1000, "platform time: %lld ms are %lld ticks", ms, N(t.time_since_epoch().count()));
        c.observe((uint64_t)ms);
    }
}

// times of day
template <class D> static void time_of_day(wide count)
{
    auto& c = *mc::current;
    typedef typename D::period P;
    D d((typename D::rep)count);
    wide a = count < 0 ? -count : count, secs = a * P::num / P::den;
    ec::hh_mm_ss<D> v(d);
    CHECK(v.is_negative() == (count < 0), "day: %lld negative: %d", N(count), v.is_negative());
    CHECK(N(v.to_duration().count()) == N(count) && N(v.operator D().count()) == N(count), "day: %lld kept as %lld", N(count), N(v.to_duration().count()));
    CHECK((wide)v.hours().count() == secs / 3600, "day: %lld of %lld/%lld s has %lld hours", N(count), N(P::num), N(P::den), N(v.hours().count()));
    CHECK((wide)v.minutes().count() == secs / 60 % 60, "day: %lld of %lld/%lld s has %lld minutes", N(count), N(P::num), N(P::den), N(v.minutes().count()));
    CHECK((wide)v.seconds().count() == secs % 60, "day: %lld of %lld/%lld s has %lld seconds", N(count), N(P::num), N(P::den), N(v.seconds().count()));
    if(P::num == 1) CHECK((wide)v.subseconds().count() == a % P::den, "day: %lld of 1/%lld s has subseconds %lld", N(count), N(P::den), N(v.subseconds().count()));
}
SCENARIO_SHARDED(every_second, 1, 1, 4, 8)
{
    int h = c.pick(256), sign = c.flip() ? -1 : 1;
    for(int s = 0; s < 3600; s++)
    {
        long long t = h * 3600LL + s;
        time_of_day<ec::seconds>(sign * t);
        time_of_day<ec::milliseconds>(sign * (t * 1000 + (s * 37) % 1000));
        time_of_day<ec::duration<int32_t, estd::milli> >(sign * (t % (500 * 3600) * 1000 + 999));
        if(sign > 0) { time_of_day<U32ms>(t * 1000 + 1); time_of_day<ec::duration<uint32_t> >(t); }
        if(t < 32768) time_of_day<ec::duration<int16_t> >(sign * t);
        if(t < 65536 && sign > 0) time_of_day<ec::duration<uint16_t> >(t);
    }
    c.observe((uint64_t)h);
}
SCENARIO(every_minute, 1, 1)
{
    int h = c.pick(256), sign = c.flip() ? -1 : 1;
    for(int m = 0; m < 60; m++) { time_of_day<ec::minutes>(sign * (h * 60 + m)); if(h * 60 + m < 32768) time_of_day<ec::duration<int16_t, estd::ratio<60> > >(sign * (h * 60 + m)); }
    time_of_day<ec::hours>(sign * h);
}

// dates: every day of some centuries
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static const int month_days[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
struct Civil { int y, m, d; };
static Civil next(Civil k)
{
    if(++k.d > month_days[k.m - 1] + (k.m == 2 && leap(k.y))) { k.d = 1; if(++k.m > 12) { k.m = 1; ++k.y; } }
    return k;
}
static Civil civil(long n)
{
    // by counting, from 1970-01-01
    int y = 1970;
    while(n < 0) { --y; n += leap(y) ? 366 : 365; }
    while(n >= (leap(y) ? 366 : 365)) { n -= leap(y) ? 366 : 365; ++y; }
    Civil k = { y, 1, 1 };
    while(n--) k = next(k);
    return k;
}
template <class Clock> static void date_of(long day, Civil want)
{
    auto& c = *mc::current;
    ec::internal::clock_days<Clock> days{ec::days(day)};
    ec::internal::year_month_day<Clock> ymd{days};
    CHECK((int)ymd.year() == want.y, "date: day %ld is in year %d, expected %d", day, (int)ymd.year(), want.y);
    CHECK((int)ymd.month() == want.m, "date: day %ld is in month %d, expected %d (%d)", day, (int)ymd.month(), want.m, want.y);
    CHECK((int)ymd.days() == want.d, "date: day %ld is day %d of its month, expected %d (%d-%d)", day, (int)ymd.days(), want.d, want.y, want.m);
}
SCENARIO(every_day, 1, 1)
{
    // 8 thousand years around the epoch (20 thousand in the thorough tier), one century per choice
    int span = c.thorough ? 200 : 80, century = c.pick(span) - span / 2;
    Civil want = civil(century * 36525L);
    for(long d = 0; d < 36525; d++, want = next(want))
    {
        date_of<tick_clock>(century * 36525L + d, want);
        if(century >= -3 && century < 3) date_of<std::chrono::system_clock>(century * 36525L + d, want);
    }
    c.observe((uint64_t)century);
}
SCENARIO(date_at_time, 1, 1)
{
    // any time of a day lies on that day
    int week = c.pick(1500);
    for(int i = 0; i < 7; i++)
    {
        long day = week * 7L + i;
        Civil want = civil(day);
        static const int at[] = { 0, 1, 3599, 43200, 86399 };
        for(int s : at)
        {
            tick_clock::time_point t{ec::seconds(day * 86400L + s)};
            ec::internal::year_month_day<tick_clock> ymd{t};
            CHECK((int)ymd.year() == want.y && (int)ymd.month() == want.m && (int)ymd.days() == want.d, "date: day %ld + %d s is %d-%d-%d", day, s, (int)ymd.year(), (int)ymd.month(), (int)ymd.days());
        }
    }
}
SCENARIO(calendar_fields, 1, 1)
{
    int v = c.pick(256) * 256 + c.pick(256) - 32768;
    ec::year y(v);
    CHECK((int)y == v, "field: year %d is %d", v, (int)y);
    CHECK(y.is_leap() == leap(v), "field: year %d leap: %d", v, y.is_leap());
    CHECK(y.ok() == (v >= -32767), "field: year %d ok: %d", v, y.ok());
    for(int by : { -40, -1, 0, 1, 7, 400 })
        if(v + by >= -32768 && v + by <= 32767)
        {
            CHECK((int)(y + ec::years(by)) == v + by && (int)(ec::years(by) + y) == v + by, "field: year %d plus %d", v, by);
            ec::year z = y; z += ec::year(by); CHECK((int)z == v + by, "field: year %d += %d is %d", v, by, (int)z);
            z -= ec::year(by); CHECK((int)z == v, "field: year -= %d is %d", by, (int)z);
        }
    if(v >= 0 && v < 256)
    {
        CHECK(ec::month(v).ok() == (v >= 1 && v <= 12), "field: month %d ok: %d", v, ec::month(v).ok());
        CHECK(ec::day(v).ok() == (v >= 1 && v <= 31), "field: day %d ok: %d", v, ec::day(v).ok());
        CHECK((unsigned)ec::month(v) == (unsigned)v && (unsigned)ec::day(v) == (unsigned)v, "field: %d kept", v);
        for(int o = 0; o < 256; o++)
        {
            ec::internal::year_month_day<void> ymd(ec::year(2000), ec::month(v), ec::day(o));
            CHECK(ymd.ok() == (v >= 1 && v <= 12 && o >= 1 && o <= 31), "field: month %d day %d ok: %d", v, o, ymd.ok());
            CHECK((int)ymd.month() == v && (int)ymd.day() == o && (int)ymd.year() == 2000, "field: %d-%d kept", v, o);
        }
    }
    for(int m = 1; m <= 12; m++)
    {
        ec::internal::month_day_last<tick_clock> mdl{ec::month(m)};
        ec::internal::year_month_day_last<tick_clock> last(y, mdl);
        int want = month_days[m - 1] + (m == 2 && leap(v));
        CHECK((int)last.day() == want, "field: last day of %d-%d is %d, expected %d", v, m, (int)last.day(), want);
        CHECK((int)last.year() == v && last.ok() == (v >= -32767) && mdl.ok(), "field: last day fields");
    }
}
#if FEATURE_ESTD_CHRONO_LITERALS
SCENARIO(literals, 1, 1)
{
    using namespace estd::literals::chrono_literals;
    c.pick(1);
    CHECK((0s).count() == 0 && (90s).count() == 90 && (1500ms).count() == 1500 && (7us).count() == 7 && (9223372036854775807ns).count() == INT64_MAX, "literal");
    CHECK(1s == 1000ms && 1ms == 1000us && 1us == 1000ns && 1s > 999999us, "literal: order");
}
#endif
#endif
