// Property C11: an optional is empty or holds exactly the last value given.
// ALSO: -std=gnu++20
// ALSO: DEVICE
#include <estd/string.h>
#include <estd/optional.h>
#include <estd/functional.h>
#include <optional>
#include <memory>
#include "mc.h"
using namespace mc;

struct M { bool has; int v; };
static std::string key(const M& m) { return m.has ? "<" + std::to_string(m.v) + ">" : "<>"; }

template <class T> struct Conv { static T to(int v) { return T(v); } static int from(const T& t) { return int(t); } };
template <> struct Conv<Tracked> { static Tracked to(int v) { return Tracked(v); } static int from(const Tracked& t) { return t.v; } };
template <> struct Conv<std::string> { static std::string to(int v) { return "a string too long for the small buffer " + std::to_string(v); } static int from(const std::string& s) { return s.size() < 30 ? -1 : atoi(s.c_str() + 39); } };

// NullModel: a value which means "empty" for the layer1 flavour
struct NoNull { static bool is(int) { return false; } };
template <int N> struct NullIs { static bool is(int v) { return v == N; } };

template <class T, class O, class Null> static void same(Ctx& c, const char* who, O& o, const M& m)
{
    const O& k = o;
    CHECK(o.has_value() == m.has, "%s: has_value %d, expected %s", who, o.has_value(), key(m).c_str());
    CHECK((bool)o == m.has, "%s: bool conversion differs", who);
    if(m.has)
    {
        CHECK(Conv<T>::from(o.value()) == m.v, "%s: value %d, expected %d", who, Conv<T>::from(o.value()), m.v);
        CHECK(Conv<T>::from(k.value()) == m.v, "%s: const value differs", who);
        CHECK(Conv<T>::from(*o) == m.v, "%s: dereferenced value differs", who);
        CHECK(Conv<T>::from(*k) == m.v, "%s: const dereferenced value differs", who);
        { O t(k); T v = std::move(t).value(); CHECK(Conv<T>::from(v) == m.v, "%s: value() of a temporary differs", who); }
    }
    else
    {
        bool threw = false;
        try { (void)k.value(); } catch(const estd::bad_optional_access&) { threw = true; }
        CHECK(threw, "%s: value() of an empty one did not throw", who);
        threw = false;
        try { (void)o.value(); } catch(const estd::bad_optional_access&) { threw = true; }
        CHECK(threw, "%s: value() of an empty one did not throw", who);
        threw = false;
        try { O t(k); (void)std::move(t).value(); } catch(const estd::bad_optional_access&) { threw = true; }
        CHECK(threw, "%s: value() of an empty temporary did not throw", who);
    }
    for(int d : {1, 3}) if(!Null::is(d)) { T dv = Conv<T>::to(d); T g = k.value_or(dv); CHECK(Conv<T>::from(g) == (m.has ? m.v : Conv<T>::from(dv)), "%s: value_or(%d) gave %d for %s", who, d, Conv<T>::from(g), key(m).c_str()); }
}
template <class T, class O> static void compare(Ctx& c, O& a, O& b, const M& ma, const M& mb, const std::vector<int>& vals)
{
    bool eq = ma.has == mb.has && (!ma.has || ma.v == mb.v);
    CHECK((a == b) == eq, "equality: %s == %s gave %d", key(ma).c_str(), key(mb).c_str(), !eq);
    for(int x : vals)
    {
        T t = Conv<T>::to(x);
        CHECK((a == t) == (ma.has && ma.v == x), "equality: %s == %d wrong", key(ma).c_str(), x);
        CHECK((t == a) == (ma.has && ma.v == x), "equality: %d == %s wrong", x, key(ma).c_str());
        CHECK((a != t) == !(ma.has && ma.v == x), "inequality: %s != %d wrong", key(ma).c_str(), x);
    }
}
template <class T, class O> static void order(Ctx& c, O& a, const M& ma, const std::vector<int>& vals)
{
    for(int x : vals)
    {
        T t = Conv<T>::to(x); bool h = ma.has; int v = ma.v;
        CHECK((a < t) == (h && v < x), "order: %s < %d wrong", key(ma).c_str(), x);
        CHECK((a > t) == (h && v > x), "order: %s > %d wrong", key(ma).c_str(), x);
        CHECK((a <= t) == (h && v <= x), "order: %s <= %d wrong", key(ma).c_str(), x);
        CHECK((a >= t) == (h && v >= x), "order: %s >= %d wrong", key(ma).c_str(), x);
    }
}
template <class O, bool> struct Emp { template <class... A> static void go(O& o, A&&... a) { auto& r = o.emplace(std::forward<A>(a)...); (void)r; } };
template <class O> struct Emp<O, false> { template <class... A> static void go(O&, A&&...) {} };

// two optionals, all histories.  Ord: has order; CanEmplace: offers emplace
template <class T, class O, class Null, bool Ord, bool CanEmplace, bool MovedFromKeeps> static void body_(Ctx& c, const std::vector<int>& vals)
{
    life.reset();
    typedef Fixed<O, 0> FA; typedef Fixed<O, 1> FB;
    static const unsigned char fills[] = {0xFF, 0x00};
    unsigned char f = c.of(fills); FA::fill(f); FB::fill(f);
    M ma, mb{false, 0};
    auto norm = [](int v) { return M{!Null::is(v), v}; };
    O* pa;
    { int k = c.pick(4); int v = c.of(vals); if(k != 2 && k != 3 && v != vals[0]) return;
      T t = Conv<T>::to(v);
      switch(k)
      {
        case 0: pa = FA::make(); ma = M{false, 0}; break;
        case 1: pa = FA::make(estd::nullopt); ma = M{false, 0}; break;
        case 2: pa = FA::make(estd::in_place_t{}, t); ma = norm(v); break;
        default: pa = FA::make(Conv<T>::to(v)); ma = norm(v); break;
      } }
    Own<O> a(pa), b(FB::make());
    for(int d = 0; ; d++)
    {
        same<T, O, Null>(c, "a", *a, ma); same<T, O, Null>(c, "b", *b, mb);
        compare<T>(c, *a, *b, ma, mb, vals);
        if constexpr(Ord) order<T>(c, *a, ma, vals);
        CHECK(FA::intact() && FB::intact(), "memory: written outside the optional");
        c.flush(); c.observe(key(ma) + key(mb));
        if(d == c.bound) break;
        if(c.visited(key(ma) + key(mb) + char(f), c.bound - d)) break;
        switch(c.pick(10))
        {
            case 0: c.log("a = nullopt"); *a = estd::nullopt; ma.has = false; break;
            case 1: c.log("a.reset()"); a->reset(); ma.has = false; break;
            case 2: { int v = c.of(vals); T t = Conv<T>::to(v); c.log("a = const %d", v); *a = (const T&)t; ma = norm(v); CHECK(Conv<T>::from(t) == v, "assignment: changed its source"); break; }
            case 3: { int v = c.of(vals); c.log("a = %d", v); *a = Conv<T>::to(v); ma = norm(v); break; }
            case 4: if(CanEmplace) { int v = c.of(vals); T t = Conv<T>::to(v); c.log("a.emplace(%d)", v); Emp<O, CanEmplace>::go(*a, t); ma = norm(v); } break;
            case 5: c.log("a = b"); *a = (const O&)*b; ma = mb; break;
            case 6: c.log("a = move(b)"); *a = std::move(*b); ma = mb; if(!MovedFromKeeps && mb.has) { b->reset(); mb.has = false; } break;
            case 7: c.log("swap roles by copy"); { O t((const O&)*a); same<T, O, Null>(c, "copy", t, ma); *a = *b; *b = t; std::swap(ma, mb); } break;
            case 8: c.log("swap roles by move"); { O t(std::move(*a)); same<T, O, Null>(c, "moved", t, ma); *a = std::move(*b); *b = std::move(t); std::swap(ma, mb); } break;
            case 9: c.log("a = a"); *a = *(const O*)&*a; break;
        }
    }
    a.kill(); b.kill(); c.flush();
    CHECK(life.live.empty(), "lifetime: %zu values outlive the optionals", life.live.size());
}
static void o_int(Ctx& c) { body_<int, estd::optional<int>, NoNull, true, true, true>(c, {0, 1, -5}); }
static void o_u8(Ctx& c) { body_<unsigned char, estd::optional<unsigned char>, NoNull, true, true, true>(c, {0, 1, 255}); }
static void o_tracked(Ctx& c) { body_<Tracked, estd::optional<Tracked>, NoNull, false, true, false>(c, {0, 1}); }
static void o_string(Ctx& c) { body_<std::string, estd::optional<std::string>, NoNull, false, true, false>(c, {4, 7}); }
static void o_l1(Ctx& c) { body_<int, estd::layer1::optional<int>, NullIs<0>, true, true, true>(c, {1, 0, -5}); }
static void o_l1m(Ctx& c) { body_<short, estd::layer1::optional<short, -1>, NullIs<-1>, true, true, true>(c, {1, 0, -1}); }
static void o_l1b(Ctx& c) { body_<bool, estd::layer1::optional<bool>, NoNull, true, false, true>(c, {0, 1}); }
static void o_bits(Ctx& c) { typedef estd::optional<unsigned, estd::internal::layer1::optional_base<unsigned, 3, 0u>> O; body_<unsigned, O, NoNull, true, false, true>(c, {0, 1, 7}); }
SCENARIO_FN(of_int, o_int, 5, 8);
SCENARIO_FN(of_byte, o_u8, 5, 8);
SCENARIO_FN(of_tracked, o_tracked, 5, 8);
SCENARIO_FN(of_string, o_string, 5, 8);
SCENARIO_FN(compact_zero, o_l1, 5, 8);
SCENARIO_FN(compact_minus_one, o_l1m, 5, 8);
SCENARIO_FN(compact_bool, o_l1b, 5, 8);
SCENARIO_FN(three_bits, o_bits, 5, 8);

// optionals of different kinds convert into one another
template <class T1, class O1, class Null1, class T2, class O2, class Null2> static void convert(Ctx& c, const std::vector<int>& vals)
{
    life.reset();
    std::vector<M> ms{{false, 0}}; for(int v : vals) ms.push_back({true, v});
    M m1 = c.of(ms), m2 = c.of(ms);
    O1 o1; if(m1.has) o1 = Conv<T1>::to(m1.v);
    O2 o2; if(m2.has) o2 = Conv<T2>::to(m2.v);
    auto n1 = [](M m) { if(Null1::is(m.v)) m.has = false; return m; }; auto n2 = [](M m) { if(Null2::is(m.v)) m.has = false; return m; };
    m1 = n1(m1); m2 = n2(m2);
    bool eq = m1.has == m2.has && (!m1.has || m1.v == m2.v);
    CHECK((o1 == o2) == eq, "cross equality: %s and %s", key(m1).c_str(), key(m2).c_str());
    { O2 x((const O1&)o1); same<T2, O2, Null2>(c, "converted copy", x, n2(m1)); }
    { O1 t((const O1&)o1); O2 x(std::move(t)); same<T2, O2, Null2>(c, "converted move", x, n2(m1)); }
    switch(c.pick(2))
    {
        case 0: o2 = (const O1&)o1; break;
        case 1: { O1 t((const O1&)o1); o2 = std::move(t); break; }
    }
    same<T2, O2, Null2>(c, "assigned", o2, n2(m1));
    same<T1, O1, Null1>(c, "source", o1, m1);
    c.flush();
}
static void x1(Ctx& c) { convert<int, estd::optional<int>, NoNull, short, estd::optional<short>, NoNull>(c, {0, 1, -7}); }
static void x2(Ctx& c) { convert<int, estd::optional<int>, NoNull, int, estd::layer1::optional<int, -1>, NullIs<-1>>(c, {0, 1, -1}); }
static void x3(Ctx& c) { convert<int, estd::layer1::optional<int, -1>, NullIs<-1>, int, estd::optional<int>, NoNull>(c, {0, 1, -1}); }
static void x4(Ctx& c) { convert<int, estd::layer1::optional<int, -1>, NullIs<-1>, int, estd::layer1::optional<int>, NullIs<0>>(c, {0, 1, -1}); }
static void x5(Ctx& c) { convert<int, estd::optional<int>, NoNull, Tracked, estd::optional<Tracked>, NoNull>(c, {0, 1, -1}); }
SCENARIO_FN(int_to_short, x1, 1, 1);
SCENARIO_FN(full_to_compact, x2, 1, 1);
SCENARIO_FN(compact_to_full, x3, 1, 1);
SCENARIO_FN(compact_to_compact, x4, 1, 1);

// a throwing element never leaves an optional claiming a value it does not hold
SCENARIO(throwing_elements, 4, 6)
{
    life.reset(); typedef estd::optional<Tracked> O; typedef Fixed<O, 0> F; F::fill(0xEE);
    Own<O> o(F::make()); M m{false, 0};
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(key(m), c.bound - d)) break;
        int at = c.pick(3), v = 1 + c.pick(2), op = c.pick(5); bool threw = false;
        {
            Tracked src(v); O other(src); life.throw_at = at;
            try { switch(op) {
                case 0: c.log("= const %d, throw@%d", v, at); *o = (const Tracked&)src; break;
                case 1: c.log("= move %d, throw@%d", v, at); *o = std::move(src); break;
                case 2: c.log("emplace %d, throw@%d", v, at); o->emplace((const Tracked&)src); break;
                case 3: c.log("= optional %d, throw@%d", v, at); *o = (const O&)other; break;
                case 4: c.log("= move(optional) %d, throw@%d", v, at); *o = std::move(other); break;
            } } catch(const Boom&) { threw = true; }
            life.throw_at = 0;
        }
        if(!threw) m = M{true, v};
        else { if(op == 2) { CHECK(!o->has_value(), "throwing: emplace threw but claims a value"); m.has = false; }
               else { CHECK(o->has_value() == m.has, "throwing: assignment threw and changed whether a value is held"); } }
        c.flush();
        if(o->has_value()) { CHECK(life.live.count(&**o), "throwing: claims a value that was never constructed"); CHECK((**o).v == m.v, "throwing: value %d expected %d", (**o).v, m.v); }
        else CHECK(life.live.empty(), "throwing: an empty optional keeps a value alive");
        c.observe(key(m) + (threw ? "!" : ""));
    }
    o.kill(); c.flush();
    CHECK(life.live.empty(), "lifetime: leaked");
}
// held values are suitably aligned wherever the optional lives
template <class T> struct After { char pad; estd::optional<T> o; };
struct Aligned8 { double d; Aligned8() : d(1) {} Aligned8(const Aligned8& x) : d(x.d) {} ~Aligned8() {} };
SCENARIO(alignment, 1, 1)
{
    switch(c.pick(3))
    {
        case 0: { After<Aligned8> x; x.o.emplace(); CHECK((uintptr_t)&*x.o % alignof(Aligned8) == 0, "alignment: a held value is misaligned"); break; }
        case 1: { After<std::string> x; x.o.emplace(); CHECK((uintptr_t)&*x.o % alignof(std::string) == 0, "alignment: a held value is misaligned"); break; }
        case 2: { After<long> x; x.o.emplace(4); CHECK((uintptr_t)&*x.o % alignof(long) == 0, "alignment: a held value is misaligned"); break; }
    }
}
// move-only values
SCENARIO(move_only, 5, 7)
{
    typedef estd::optional<Owner<int>> O; O a; M m{false, 0};
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(key(m), c.bound - d)) return;
        switch(c.pick(4))
        {
            case 0: a.reset(); m.has = false; break;
            case 1: { int v = c.pick(2); a = Owner<int>(new int(v)); m = {true, v}; break; }
            case 2: { int v = c.pick(2); a.emplace(new int(v)); m = {true, v}; break; }
            case 3: { O b(std::move(a)); CHECK(b.has_value() == m.has, "move-only: lost"); if(m.has) CHECK(*b.value() == m.v, "move-only: wrong"); a = std::move(b); break; }
        }
        CHECK(a.has_value() == m.has, "move-only: has_value"); if(m.has) CHECK(**a == m.v, "move-only: value");
    }
}

// optionals which compare equal hash alike, and one with a value hashes as the value does
template <class O, class V> static void hashing(Ctx& c, std::initializer_list<V> vals)
{
    typedef Fixed<O, 7> A; typedef Fixed<O, 8> B;
    A::fill(0x11); B::fill(0xEE);
    Own<O> a(A::make()), b(B::make()); std::vector<V> vs(vals);
    const estd::hash<O> h{}; const estd::hash<V> hv{};
    bool has[2] = { false, false }; V v[2] = { vs[0], vs[0] };
    for(int d = 0;; d++)
    {
        if((*a == *b)) CHECK(h(*a) == h(*b), "hash: equal optionals hash to %zx and %zx", (size_t)h(*a), (size_t)h(*b));
        if(has[0]) CHECK(h(*a) == hv(v[0]), "hash: %zx, the value hashes to %zx", (size_t)h(*a), (size_t)hv(v[0]));
        if(has[1]) CHECK(h(*b) == hv(v[1]), "hash: %zx, the value hashes to %zx", (size_t)h(*b), (size_t)hv(v[1]));
        c.observe(std::to_string(has[0]) + std::to_string((long)v[0]) + "/" + std::to_string(has[1]) + std::to_string((long)v[1]));
        if(d == c.bound) return;
        int w = c.pick(2); O& o = w ? *b : *a;
        if(c.flip()) { v[w] = (V)vs[c.pick((int)vs.size())]; c.log("%c = %ld", 'a' + w, (long)v[w]); o = v[w]; has[w] = true; }
        else { c.log("%c.reset()", 'a' + w); o.reset(); has[w] = false; }
    }
}
static void hash_int(Ctx& c) { hashing<estd::optional<int>, int>(c, { 5, 0, -1 }); }
static void hash_byte(Ctx& c) { hashing<estd::optional<uint8_t>, uint8_t>(c, { 7, 0 }); }
static void hash_compact(Ctx& c) { hashing<estd::layer1::optional<int, -1>, int>(c, { 3, 0 }); }
static void hash_bool(Ctx& c) { hashing<estd::layer1::optional<bool>, bool>(c, { true, false }); }
SCENARIO_FN(hashing_int, hash_int, 4, 5);
SCENARIO_FN(hashing_byte, hash_byte, 4, 6);
SCENARIO_FN(hashing_compact, hash_compact, 4, 6);
SCENARIO_FN(hashing_bool, hash_bool, 4, 6);
