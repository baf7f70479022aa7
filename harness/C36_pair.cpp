// Property C36: pairs keep and order their two elements; swap and exchange trade values.
// ALSO: DEVICE
// ALSO: -std=gnu++20
#include <estd/tuple.h>
#include <estd/utility.h>
#include "mc.h"
#include <limits>
#include <cmath>
#include <memory>
#include <utility>
#include <vector>
using namespace mc;

typedef TrackedT<1> A; typedef TrackedT<2> B;
static int val(const A& a) { return a.v; } static int val(const B& b) { return b.v; } static int val(int v) { return v; } static int val(long long v) { return (int)v; }
static int val(short v) { return v; } static int val(unsigned char v) { return v; } static int val(const std::string& s) { return s.size() < 40 ? -1 : atoi(s.c_str() + 39); }
template <class T> struct Mk { static T of(int v) { return T(v); } };
template <> struct Mk<std::string> { static std::string of(int v) { return "a string too long for the small buffer " + std::to_string(v); } };

// ---- histories over two pairs
template <class T, class U> static void hist(Ctx& c)
{
    typedef estd::pair<T, U> P; life.reset();
    {
    typedef Fixed<P, 0> F0; typedef Fixed<P, 1> F1; F0::fill(0xFF); F1::fill(0);
    int m[2][2] = {{1, 2}, {2, 1}};
    Own<P> p0(F0::make(Mk<T>::of(1), Mk<U>::of(2))), p1(F1::make(Mk<T>::of(2), Mk<U>::of(1))); P* p[2] = {p0.p, p1.p};
    for(int d = 0; ; d++)
    {
        std::string key;
        for(int i = 0; i < 2; i++)
        {
            P& x = *p[i]; const P& k = x;
            CHECK(val(x.first) == m[i][0] && val(x.second) == m[i][1], "elements: (%d,%d), expected (%d,%d)", val(x.first), val(x.second), m[i][0], m[i][1]);
            CHECK(&estd::get<0>(x) == &x.first && &estd::get<1>(x) == &x.second && &estd::get<0>(k) == &k.first && &estd::get<1>(k) == &k.second, "get: not the element");
            key += std::to_string(m[i][0]) + "," + std::to_string(m[i][1]) + ";";
        }
        CHECK((F0::intact() && F1::intact()), "memory: written outside"); c.flush(); c.observe(key);
        if(d == c.bound) break;
        if(c.visited(key, c.bound - d)) break;
        int i = c.pick(2), o = 1 - i, v = 1 + c.pick(2);
        switch(c.pick(10))
        {
            case 0: c.log("%d.first = %d", i, v); p[i]->first = Mk<T>::of(v); m[i][0] = v; break;
            case 1: c.log("get<1>(%d) = %d", i, v); estd::get<1>(*p[i]) = Mk<U>::of(v); m[i][1] = v; break;
            case 2: c.log("%d = %d", i, o); *p[i] = *p[o]; m[i][0] = m[o][0]; m[i][1] = m[o][1]; break;
            case 3: { c.log("copy of %d", i); P t(*p[i]); *p[i] = P(Mk<T>::of(9), Mk<U>::of(9)); CHECK(val(t.first) == m[i][0] && val(t.second) == m[i][1], "copy: wrong"); *p[i] = t; break; }
            case 4: { c.log("moved out of %d and back", i); P t(std::move(*p[i])); CHECK(val(t.first) == m[i][0] && val(t.second) == m[i][1], "move: wrong"); *p[i] = t; break; }
            case 5: c.log("%d.swap(%d)", i, o); p[i]->swap(*p[o]); std::swap(m[i], m[o]); break;
            case 6: c.log("swap(%d, %d)", i, o); estd::swap(*p[i], *p[o]); std::swap(m[i], m[o]); break;
            case 7: { c.log("%d = const elements", i); const T t = Mk<T>::of(v); const U u = Mk<U>::of(v + 1); P q(t, u); *p[i] = q; m[i][0] = v; m[i][1] = v + 1; break; }
            case 8: c.log("%d.swap(itself)", i); p[i]->swap(*p[i]); break;
            default: { c.log("%d = make_pair", i); P q = estd::make_pair(Mk<T>::of(v), Mk<U>::of(v + 1)); *p[i] = q; m[i][0] = v; m[i][1] = v + 1; break; }
        }
        c.flush();
    }
    }
    CHECK(life.live.empty(), "lifetime: %zu objects left", life.live.size()); c.flush();
}
SCENARIO_FN(ints, (hist<int, int>), 4, 7);
SCENARIO_FN(narrow_wide, (hist<unsigned char, long long>), 4, 7);
SCENARIO_FN(objects, (hist<A, B>), 4, 7);
SCENARIO_FN(object_string, (hist<A, std::string>), 4, 7);
SCENARIO_FN(string_short, (hist<std::string, short>), 4, 7);

// ---- order: first elements decide, second ones break ties
template <class T, class U> static void order(Ctx& c)
{
    static const std::vector<T> ts = {std::numeric_limits<T>::min(), T(std::numeric_limits<T>::max() / 2), std::numeric_limits<T>::max(), T(0), T(1)};
    static const std::vector<U> us = {std::numeric_limits<U>::min(), U(std::numeric_limits<U>::max() / 2), std::numeric_limits<U>::max(), U(0), U(1)};
    T a = c.of(ts), b = c.of(ts); U x = c.of(us), y = c.of(us);
    const estd::pair<T, U> p(a, x), q(b, y); std::pair<T, U> mp(a, x), mq(b, y);
    CHECK((p == q) == (mp == mq), "==: (%lld,%lld) and (%lld,%lld)", (long long)a, (long long)x, (long long)b, (long long)y);
    CHECK((p != q) == (mp != mq), "!=: (%lld,%lld) and (%lld,%lld)", (long long)a, (long long)x, (long long)b, (long long)y);
    CHECK((p < q) == (mp < mq), "<: (%lld,%lld) and (%lld,%lld)", (long long)a, (long long)x, (long long)b, (long long)y);
    CHECK((p > q) == (mp > mq), ">: (%lld,%lld) and (%lld,%lld)", (long long)a, (long long)x, (long long)b, (long long)y);
    c.observe((mp < mq) - (mq < mp));
}
SCENARIO_FN(order_ints, (order<int, int>), 1, 1);
SCENARIO_FN(order_bytes, (order<unsigned char, signed char>), 1, 1);
SCENARIO_FN(order_wide, (order<long long, unsigned>), 1, 1);
SCENARIO_FN(order_short, (order<short, unsigned long long>), 1, 1);

// ---- built in place from two lists of arguments
struct Two { A a; int b; Two(int x, int y) : a(x), b(y) {} };
struct One { int v; explicit One(int x) : v(x) {} };
SCENARIO(piecewise, 1, 1)
{
    life.reset(); int x = c.pick(3), y = c.pick(3), z = c.pick(3);
    {
        estd::pair<Two, One> p(estd::piecewise_construct_t{}, estd::make_tuple(int(x), int(y)), estd::make_tuple(int(z)));
        CHECK(p.first.a.v == x && p.first.b == y && p.second.v == z, "piecewise: (%d,%d | %d), expected (%d,%d | %d)", p.first.a.v, p.first.b, p.second.v, x, y, z);
        estd::pair<One, Two> q(estd::piecewise_construct_t{}, estd::forward_as_tuple(std::move(z)), estd::forward_as_tuple(std::move(x), std::move(y)));
        CHECK(q.first.v == z && q.second.a.v == x && q.second.b == y, "piecewise: forwarded arguments misplaced");
        estd::pair<int, int> r(estd::piecewise_construct_t{}, estd::tuple<>(), estd::make_tuple(int(y)));
        CHECK(r.first == 0 && r.second == y, "piecewise: no arguments make (%d,%d)", r.first, r.second);
    }
    CHECK(life.live.empty(), "lifetime: objects left"); c.flush(); c.observe(x * 9 + y * 3 + z);
}
static_assert(estd::tuple_size<estd::pair<int, char>>::value == 2 && std::is_same<estd::tuple_element<0, estd::pair<int, char>>::type, int>::value && std::is_same<estd::tuple_element<1, estd::pair<int, char>>::type, char>::value, "pair as a tuple");

// ---- swap and exchange of every kind, also of a thing with itself
enum class En : unsigned char { x, y = 200 };
template <class T> static void trade(Ctx& c, const std::vector<T>& vs)
{
    T a = c.of(vs), b = c.of(vs); T box[3] = {vs[0], a, vs[0]}, other[3] = {vs[0], b, vs[0]};
    estd::swap(box[1], other[1]);
    CHECK(box[1] == b && other[1] == a, "swap: values not traded"); CHECK(box[0] == vs[0] && box[2] == vs[0] && other[0] == vs[0] && other[2] == vs[0], "swap: neighbours changed");
    estd::swap(box[1], box[1]); CHECK(box[1] == b, "swap: with itself changed the value");
    T was = estd::exchange(box[1], a); CHECK(was == b && box[1] == a, "exchange: gave back or left the wrong value");
    const T& k = b; was = estd::exchange(box[1], k); CHECK(was == a && box[1] == b && b == k, "exchange: of a const gave back or left the wrong value");
}
template <class T> static void trade_ints(Ctx& c) { trade<T>(c, {std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), T(0), T(1), T(std::numeric_limits<T>::max() / 3)}); }
SCENARIO_FN(trade_char, trade_ints<char>, 1, 1);
SCENARIO_FN(trade_schar, trade_ints<signed char>, 1, 1);
SCENARIO_FN(trade_uchar, trade_ints<unsigned char>, 1, 1);
SCENARIO_FN(trade_short, trade_ints<short>, 1, 1);
SCENARIO_FN(trade_ushort, trade_ints<unsigned short>, 1, 1);
SCENARIO_FN(trade_int, trade_ints<int>, 1, 1);
SCENARIO_FN(trade_uint, trade_ints<unsigned>, 1, 1);
SCENARIO_FN(trade_long, trade_ints<long>, 1, 1);
SCENARIO_FN(trade_ulong, trade_ints<unsigned long>, 1, 1);
SCENARIO_FN(trade_llong, trade_ints<long long>, 1, 1);
SCENARIO_FN(trade_double, trade_ints<double>, 1, 1);
SCENARIO(trade_others, 1, 1)
{
    static int ints[3];
    switch(c.pick(4))
    {
        case 0: trade<int*>(c, {nullptr, ints, ints + 2}); break;
        case 1: trade<En>(c, {En::x, En::y}); break;
        case 2: trade<std::string>(c, {"", "short", "a string too long for the small buffer"}); break;
        default: trade<std::vector<int>>(c, {{}, {1}, {1, 2, 3}}); break;
    }
}

// what compares equal is not always the same
struct Card { int suit, id; bool operator==(const Card& o) const { return suit == o.suit; } bool operator!=(const Card& o) const { return suit != o.suit; } bool operator<(const Card& o) const { return suit < o.suit; } bool operator>(const Card& o) const { return suit > o.suit; } };
SCENARIO(trade_alike, 1, 1)
{
    Card a{c.pick(2), 1}, b{c.pick(2), 2}, x{c.pick(2), 3}, y{c.pick(2), 4}; typedef estd::pair<Card, Card> P; P p(a, x), q(b, y);
    auto is = [&](const char* what, const P& k, int f, int s) { CHECK(k.first.id == f && k.second.id == s, "%s: (%d,%d), expected (%d,%d)", what, k.first.id, k.second.id, f, s); };
    p.swap(q); is("swap", p, 2, 4); is("swap", q, 1, 3); estd::swap(p, q); is("swap", p, 1, 3); is("swap", q, 2, 4);
    P r(p); r = q; is("assigned", r, 2, 4); Card k = a; estd::swap(k, b); CHECK(k.id == 2 && b.id == 1, "swap: values not traded"); Card was = estd::exchange(k, a); CHECK(was.id == 2 && k.id == 1, "exchange: wrong value");
    double z = 0.0, n = -0.0; estd::swap(z, n); CHECK(std::signbit(z) && !std::signbit(n), "swap: of zeros"); estd::pair<double, double> d(0.0, -0.0), e(-0.0, 0.0); d.swap(e); CHECK(std::signbit(d.first) && !std::signbit(d.second) && !std::signbit(e.first) && std::signbit(e.second), "swap: of zeros");
    c.observe(a.suit * 8 + b.suit * 4 + x.suit * 2 + y.suit);
}
// an exchange moves: what can only be moved is moved, once, and nothing is left behind
SCENARIO(exchange_moves, 1, 1)
{
    life.reset(); int x = c.pick(3), y = c.pick(3);
    {
        Owner<A> a, b; if(x) a = Owner<A>(new A(x)); if(y) b = Owner<A>(new A(y)); A *pa = a.get(), *pb = b.get();
        Owner<A> was = estd::exchange(a, std::move(b)); CHECK(was.get() == pa && a.get() == pb && !b.get(), "exchange: not moved");
        was = estd::exchange(a, Owner<A>()); CHECK(was.get() == pb && !a.get(), "exchange: not moved");
        std::vector<A> v(x), w(y); A *dv = v.data(), *dw = w.data(); std::vector<A> o = estd::exchange(v, std::move(w)); CHECK(o.data() == dv && v.data() == dw && (int)o.size() == x && (int)v.size() == y, "exchange: copied");
    }
    CHECK(life.live.empty(), "lifetime: %zu objects left", life.live.size()); c.flush(); c.observe(x * 3 + y);
}
// an exchange with part of the same object
SCENARIO(exchange_itself, 1, 1)
{
    int x = c.pick(3), y = c.pick(3); int m[2] = {x, y}; int was = estd::exchange(m[0], m[1]); CHECK(was == x && m[0] == y && m[1] == y, "exchange: (%d,%d)", m[0], m[1]); was = estd::exchange(m[0], short(7)); CHECK(was == y && m[0] == 7, "exchange: of another type");
    std::string s = "a string too long for the small buffer"; std::string o = estd::exchange(s, "b"); CHECK(o.size() == 38 && s == "b", "exchange: of another type"); c.observe(x * 3 + y);
}
