// Property C12: a variant holds exactly one value, of the alternative last put in.
// ALSO: -std=gnu++20
#include <estd/string.h>
#include <estd/variant.h>
#include "mc.h"
using namespace mc;

typedef TrackedT<1> A; typedef TrackedT<2> B;
// no assignment: forces destroy-and-construct paths
struct K : TrackedT<3> { explicit K(int v) : TrackedT<3>(v) {} K() {} K(const K&) = default; K(K&&) = default; K& operator=(const K&) = delete; K& operator=(K&&) = delete; };
static int val(int v) { return v; }
static int val(const A& a) { return a.v; }
static int val(const B& a) { return a.v; }
static int val(const K& a) { return a.v; }
static int val(const std::string& s) { return s.size() < 40 ? -1 : atoi(s.c_str() + 39); }
template <class T> struct Mk { static T of(int v) { return T(v); } };
template <> struct Mk<std::string> { static std::string of(int v) { return "a string too long for the small buffer " + std::to_string(v); } };

struct M { int idx; int v; };       // idx -1: valueless
static std::string key(const M& m) { return m.idx < 0 ? "<->" : "<" + std::to_string(m.idx) + ":" + std::to_string(m.v) + ">"; }
struct Probe
{
    int* calls; int* idx; int* v;
    template <size_t I, class T> bool operator()(estd::variadic::instance<I, T> vi) const { ++*calls; *idx = (int)I; *v = val(vi.value); return true; }
};
template <int I, class V> static void one(Ctx& c, const char* who, V& v, const M& m)
{
    const V& k = v; typedef estd::variant_alternative_t<I, V> T;
    auto p = estd::get_if<I>(&v); auto pk = estd::get_if<I>(&k);
    auto pt = estd::get_if<T>(&v); auto ptk = estd::get_if<T>(&k);
    bool here = m.idx == I;
    CHECK((p != nullptr) == here && (pk != nullptr) == here && (pt != nullptr) == here && (ptk != nullptr) == here, "%s: get_if<%d> wrong for %s", who, I, key(m).c_str());
    CHECK(estd::holds_alternative<T>(k) == here, "%s: holds_alternative<%d> wrong for %s", who, I, key(m).c_str());
    bool threw = false; int got = 0;
    try { got = val(estd::get<I>(v)); CHECK(got == val(estd::get<I>(k)), "%s: const get differs", who); CHECK(&estd::get<T>(v) == &estd::get<I>(k), "%s: get by type differs", who); }
    catch(const estd::bad_variant_access&) { threw = true; }
    CHECK(threw == !here, "%s: get<%d> of %s %s", who, I, key(m).c_str(), threw ? "threw" : "did not throw");
    if(here)
    {
        CHECK(got == m.v, "%s: holds %d, expected %s", who, got, key(m).c_str());
        CHECK(val(*p) == m.v && val(*pk) == m.v && val(*pt) == m.v, "%s: get_if value differs", who);
        CHECK((uintptr_t)p % alignof(T) == 0, "%s: alternative %d is misaligned", who, I);
    }
}
template <class V> static void same(Ctx& c, const char* who, V& v, const M& m)
{
    const V& k = v;
    CHECK(k.valueless_by_exception() == (m.idx < 0), "%s: valueless %d, expected %s", who, k.valueless_by_exception(), key(m).c_str());
    CHECK((int)k.index() == m.idx, "%s: index %d, expected %s", who, (int)k.index(), key(m).c_str());
    one<0>(c, who, v, m); one<1>(c, who, v, m); one<2>(c, who, v, m);
    int calls = 0, i = -1, x = 0;
    size_t r = v.visit_index(Probe{&calls, &i, &x});
    if(m.idx < 0) CHECK(calls == 0 && r == (size_t)-1, "%s: visiting a valueless one called %d times", who, calls);
    else CHECK(calls == 1 && i == m.idx && x == m.v && (int)r == m.idx, "%s: visit saw %d calls, %d:%d, returned %zu for %s", who, calls, i, x, r, key(m).c_str());
    calls = 0; r = k.visit_index(Probe{&calls, &i, &x});
    if(m.idx < 0) CHECK(calls == 0 && r == (size_t)-1, "%s: const visiting a valueless one called %d times", who, calls);
    else CHECK(calls == 1 && i == m.idx && x == m.v && (int)r == m.idx, "%s: const visit wrong for %s", who, key(m).c_str());
}
template <int I, class V> static void put(Ctx& c, V& v, int x, int how)
{
    typedef estd::variant_alternative_t<I, V> T; T t = Mk<T>::of(x);
    switch(how)
    {
        case 0: c.log("emplace<%d>(const %d)", I, x); { auto& r = v.template emplace<I>((const T&)t); CHECK(&r == estd::get_if<I>(&v), "emplace: returned another object"); } break;
        case 1: c.log("emplace<T%d>(%d)", I, x); { auto& r = v.template emplace<T>(Mk<T>::of(x)); CHECK(&r == estd::get_if<I>(&v), "emplace: returned another object"); } break;
        case 2: c.log("= const %d:%d", I, x); v = (const T&)t; CHECK(val(t) == x, "assignment changed its source"); break;
        case 3: c.log("= %d:%d", I, x); v = Mk<T>::of(x); break;
    }
}
template <class V> static void put(Ctx& c, V& v, int i, int x, int how) { if(i == 0) put<0>(c, v, x, how); else if(i == 1) put<1>(c, v, x, how); else put<2>(c, v, x, how); }
template <class V> static V* make(Ctx& c, M& m)
{
    switch(c.pick(5))
    {
        case 0: { c.log("default"); m = {0, -1}; V* v = Fixed<V, 0>::make(); m.v = val(estd::get<0>(*v)); CHECK(m.v == 0 || m.v == -1, "default: not the default value"); return v; }
        case 1: { typedef estd::variant_alternative_t<1, V> T; T t = Mk<T>::of(1); m = {1, 1}; c.log("in_place_index<1>"); return Fixed<V, 0>::make(estd::in_place_index_t<1>{}, t); }
        case 2: { typedef estd::variant_alternative_t<2, V> T; T t = Mk<T>::of(1); m = {2, 1}; c.log("in_place_type<2>"); return Fixed<V, 0>::make(estd::in_place_type_t<T>{}, t); }
        case 3: { typedef estd::variant_alternative_t<2, V> T; m = {2, 2}; c.log("converting<2>"); return Fixed<V, 0>::make(Mk<T>::of(2)); }
        default: { typedef estd::variant_alternative_t<1, V> T; T t = Mk<T>::of(2); m = {1, 2}; c.log("converting<1>"); return Fixed<V, 0>::make((const T&)t); }
    }
}
template <class V> static void hist(Ctx& c)
{
    life.reset(); Fixed<V, 0>::fill(0xBB); Fixed<V, 1>::fill(0xBB);
    M ma{0, 0}, mb{0, 0};
    Own<V> a(make<V>(c, ma)), b(Fixed<V, 1>::make(estd::in_place_index_t<0>{}, Mk<estd::variant_alternative_t<0, V>>::of(5)));
    mb.v = 5;
    for(int d = 0; ; d++)
    {
        same(c, "a", *a, ma); same(c, "b", *b, mb);
        CHECK((Fixed<V, 0>::intact() && Fixed<V, 1>::intact()), "memory: written outside the variant");
        c.flush(); c.observe(key(ma) + key(mb));
        if(d == c.bound) break;
        if(c.visited(key(ma) + key(mb), c.bound - d)) break;
        switch(c.pick(8))
        {
            case 7: c.log("a = move(a)"); *a = std::move(*&*a); break;
            case 0: { int how = c.pick(4), i = c.pick(3), x = c.of({6, 7}); put(c, *a, i, x, how); ma = {i, x}; break; }
            case 1: c.log("a = b"); *a = (const V&)*b; ma = mb; break;
            case 2: c.log("a = move(b), b refilled"); *a = std::move(*b); ma = mb; same(c, "a", *a, ma); c.flush(); b->template emplace<1>(Mk<estd::variant_alternative_t<1, V>>::of(8)); mb = {1, 8}; break;
            case 3: c.log("swap by copies"); { V t((const V&)*a); same(c, "copy", t, ma); *a = *b; *b = t; std::swap(ma, mb); } break;
            case 4: c.log("swap by moves"); { V t(std::move(*a)); same(c, "moved", t, ma); *a = std::move(*b); *b = std::move(t); std::swap(ma, mb); } break;
            case 5: c.log("a = a"); *a = *(const V*)&*a; break;
            case 6: c.log("move a away"); { V t(std::move(*a)); same(c, "moved", t, ma); same(c, "moved from", *a, M{-1, 0}); c.flush(); } ma = {-1, 0}; break;
        }
    }
    a.kill(); b.kill(); c.flush();
    CHECK(life.live.empty(), "lifetime: %zu values outlive the variants", life.live.size());
}
typedef estd::variant<int, A, B> V1; typedef estd::variant<A, K, int> V2x; typedef estd::variant<K, A, B> V2; typedef estd::variant<short, const char*, char> V3;
typedef estd::variant<int, std::string, A> V4;
SCENARIO_FN_SHARDED(int_or_objects, hist<V1>, 4, 7, 4, 8);
SCENARIO_FN_SHARDED(unassignable_objects, hist<V2>, 4, 7, 4, 8);
SCENARIO_FN_SHARDED(int_or_string, hist<V4>, 4, 7, 4, 8);

// a throwing construction or assignment never leaves a variant claiming a value it does not hold
template <class V> static void throwing(Ctx& c)
{
    life.reset(); Fixed<V, 0>::fill(0xBB); M m{0, 5};
    Own<V> a(Fixed<V, 0>::make(estd::in_place_index_t<0>{}, Mk<estd::variant_alternative_t<0, V>>::of(5)));
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(key(m), c.bound - d)) break;
        int at = c.pick(4), i = c.pick(3), x = 6 + c.pick(2), how = c.pick(6); bool threw = false;
        {
            V src(estd::in_place_index_t<0>{}, Mk<estd::variant_alternative_t<0, V>>::of(1)); put(c, src, i, x, 0);
            auto before = life.live;
            try {
                life.throw_at = at; c.log("throw@%d how %d", at, how);
                if(how < 4) put(c, *a, i, x, how); else if(how == 4) *a = (const V&)src; else *a = std::move(src);
            } catch(const Boom&) { threw = true; }
            life.throw_at = 0;
        }
        c.flush();
        if(!threw) m = {i, x};
        else
        {   // whatever it claims to hold must be alive; nothing else of it may be
            if(a->valueless_by_exception()) { CHECK(life.live.empty(), "throwing: a valueless variant keeps a value alive"); m = {-1, 0}; }
            else if((int)a->index() == m.idx)
            {
                int nv = m.v; if(auto* p = estd::get_if<0>(&*a)) nv = val(*p); if(auto* p = estd::get_if<1>(&*a)) nv = val(*p); if(auto* p = estd::get_if<2>(&*a)) nv = val(*p);
                c.flush(); CHECK(nv == m.v, "throwing: value changed from %d to %d", m.v, nv);
            }
            else c.fail("throwing: claims alternative %d after a throw, had %s", (int)a->index(), key(m).c_str());
        }
        same(c, "after", *a, m); c.flush(); c.observe(key(m) + (threw ? "!" : ""));
    }
    a.kill(); c.flush();
    CHECK(life.live.empty(), "lifetime: leaked");
}
SCENARIO_FN(throwing_assignable, throwing<V1>, 3, 5);
SCENARIO_FN(throwing_unassignable, throwing<V2>, 3, 5);

// repeated alternatives are told apart by position
SCENARIO(repeated_types, 4, 6)
{
    typedef estd::variant<int, char, int> V; V v; M m{0, 0};
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(key(m), c.bound - d)) return;
        int i = c.pick(3), x = 1 + c.pick(2);
        if(c.flip()) { c.log("emplace<%d>", i); if(i == 0) v.emplace<0>(x); else if(i == 1) v.emplace<1>((char)x); else v.emplace<2>(x); }
        else { c.log("in_place<%d>", i); if(i == 0) { V t(estd::in_place_index_t<0>{}, x); v = t; } else if(i == 1) { V t(estd::in_place_index_t<1>{}, (char)x); v = t; } else { V t(estd::in_place_index_t<2>{}, x); v = t; } }
        m = {i, x};
        CHECK((int)v.index() == i, "repeated: index %d after putting alternative %d", (int)v.index(), i);
        int got = i == 0 ? estd::get<0>(v) : i == 1 ? estd::get<1>(v) : estd::get<2>(v);
        CHECK(got == x, "repeated: value");
    }
}
SCENARIO(monostates, 1, 1)
{
    estd::monostate a, b; CHECK(a == b, "monostate: not equal"); CHECK(!(a != b), "monostate: unequal to itself");
    estd::variant<estd::monostate, int> v; CHECK(v.index() == 0, "monostate: index"); v = 3; CHECK(v.index() == 1 && estd::get<int>(v) == 3, "monostate: value");
    v.emplace<estd::monostate>(); CHECK(v.index() == 0 && estd::get_if<int>(&v) == nullptr, "monostate: back");
}

// many alternatives of every size: each is told from every other, and fits
template <int N, int Al> struct alignas(Al) Wide
{
    unsigned char b[N];
    Wide() : Wide(0, 0) {} Wide(int v, int) { for(int i = 0; i < N; i++) b[i] = (unsigned char)(v + i * 7); }
    int value() const { for(int i = 0; i < N; i++) if(b[i] != (unsigned char)(b[0] + i * 7)) return -1; return b[0]; }
};
template <int N, int Al> static int val(const Wide<N, Al>& w) { return w.value(); }
template <int N, int Al> struct Mk<Wide<N, Al>> { static Wide<N, Al> of(int v) { return Wide<N, Al>(v, 0); } };
template <class V, int I> struct At
{
    // every look that throws is slow: only a neighbour's is made
    static void same(Ctx& c, V& v, const M& m)
    {
        const V& k = v; typedef estd::variant_alternative_t<I, V> T; bool here = m.idx == I;
        if(here || m.idx == (I + 1) % (int)estd::variant_size<V>::value) one<I>(c, "v", v, m);
        CHECK((estd::get_if<I>(&v) != nullptr) == here && (estd::get_if<I>(&k) != nullptr) == here && (estd::get_if<T>(&v) != nullptr) == here && (estd::get_if<T>(&k) != nullptr) == here, "get_if<%d>: wrong for %s", I, key(m).c_str());
        CHECK(estd::holds_alternative<T>(k) == here, "holds_alternative<%d>: wrong for %s", I, key(m).c_str());
        At<V, I - 1>::same(c, v, m);
    }
    static void put(Ctx& c, V& v, int i, int x, int how) { if(i == I) ::put<I, V>(c, v, x, how); else At<V, I - 1>::put(c, v, i, x, how); }
    static V* make(Ctx& c, int i, int x) { typedef estd::variant_alternative_t<I, V> T; if(i != I) return At<V, I - 1>::make(c, i, x); c.log("make <%d>", I); return Fixed<V, 0>::make(estd::in_place_index_t<I>{}, Mk<T>::of(x)); }
};
template <class V> struct At<V, -1> { static void same(Ctx&, V&, const M&) {} static void put(Ctx&, V&, int, int, int) {} static V* make(Ctx&, int, int) { return nullptr; } };
template <class V> static void wide(Ctx& c)
{
    constexpr int n = (int)estd::variant_size<V>::value; life.reset(); Fixed<V, 0>::fill(0xBB); Fixed<V, 1>::fill(0xBB);
    M m{c.pick(n), 40}; Own<V> a(At<V, n - 1>::make(c, m.idx, m.v)); Own<V> b(Fixed<V, 1>::make((const V&)*a)); M mb = m;
    for(int d = 0; ; d++)
    {
        for(int w = 0; w < 2; w++)
        {
            V& v = w ? *b : *a; const M& x = w ? mb : m; At<V, n - 1>::same(c, v, x); CHECK((int)v.index() == x.idx, "index: %d, expected %s", (int)v.index(), key(x).c_str());
            int calls = 0, i = -1, got = 0; v.visit_index(Probe{&calls, &i, &got}); CHECK(calls == 1 && i == x.idx && got == x.v, "visit: %d calls, %d:%d, expected %s", calls, i, got, key(x).c_str());
        }
        CHECK((Fixed<V, 0>::intact() && Fixed<V, 1>::intact()), "memory: written outside the variant"); c.flush(); c.observe(key(m) + key(mb));
        if(d == c.bound || c.visited(key(m) + key(mb), c.bound - d)) break;
        switch(c.pick(4))
        {
            case 0: { int how = c.pick(4), i = c.pick(n), x = c.of({60, 70}); At<V, n - 1>::put(c, *a, i, x, how); m = {i, x}; break; }
            case 1: c.log("a = b"); *a = (const V&)*b; m = mb; break;
            case 2: c.log("b = a"); *b = (const V&)*a; mb = m; break;
            case 3: c.log("swap by moves"); { V t(std::move(*a)); *a = std::move(*b); *b = std::move(t); std::swap(m, mb); } break;
        }
    }
    a.kill(); b.kill(); c.flush(); CHECK(life.live.empty(), "lifetime: %zu values outlive the variants", life.live.size());
}
typedef estd::variant<Wide<3, 1>, Wide<5, 1>> W2; typedef estd::variant<Wide<6, 2>, Wide<1, 1>> W2b; typedef estd::variant<Wide<7, 1>> W1;
typedef estd::variant<Wide<1, 1>, int, A, Wide<2, 1>, Wide<4, 4>, Wide<33, 1>, B, Wide<8, 8>, std::string, Wide<13, 1>, Wide<16, 16>, K> W12;
typedef estd::variant<A, Wide<1, 1>, Wide<2, 1>, Wide<3, 1>, Wide<4, 1>, Wide<5, 1>, Wide<6, 1>, Wide<7, 1>, Wide<8, 1>, Wide<9, 1>, Wide<10, 1>, Wide<11, 1>, Wide<12, 1>, Wide<13, 1>, Wide<14, 1>, Wide<15, 1>, Wide<16, 1>, B> W18;
SCENARIO_FN(odd_sizes, wide<W2>, 4, 6);
SCENARIO_FN(odd_alignment, wide<W2b>, 4, 6);
SCENARIO_FN(single, wide<W1>, 4, 6);
SCENARIO_FN_SHARDED(twelve_alternatives, wide<W12>, 2, 3, 2, 4);
SCENARIO_FN_SHARDED(eighteen_alternatives, wide<W18>, 2, 3, 4, 8);
