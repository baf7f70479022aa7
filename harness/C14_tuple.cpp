// Property C14: tuples keep each element in its place; visiting reaches elements in order.
// ALSO: -std=gnu++20
// ALSO: DEVICE
#include <estd/tuple.h>
#include <estd/internal/variadic.h>
#include "mc.h"
#include <tuple>
#include <memory>
using namespace mc;

typedef TrackedT<1> A; typedef TrackedT<2> B;
struct Nil { friend bool operator==(Nil, Nil) { return true; } };
struct Nil2 {};
static int val(const A& a) { return a.v; } static int val(const B& b) { return b.v; } static int val(int v) { return v; }
static int val(unsigned char v) { return v; } static int val(const std::string& s) { return s.size() < 40 ? -1 : atoi(s.c_str() + 39); }
static int val(Nil) { return 0; }
template <class T> struct Mk { static T of(int v) { return T(v); } };
template <> struct Mk<std::string> { static std::string of(int v) { return "a string too long for the small buffer " + std::to_string(v); } };

// ---- histories over three element tuples
struct Sum { template <class... X> std::vector<int> operator()(const X&... x) const { return {val(x)...}; } };
template <class T> struct Keep
{
    std::vector<int>* seen; size_t stop;
    template <size_t I, class X> bool operator()(estd::variadic::instance<I, X> i) const { seen->push_back((int)I); seen->push_back(val(i.value)); return I == stop; }
};
// the elements themselves are visited, not copies of them
struct Places { std::vector<const void*>* at; template <size_t I, class X> bool operator()(estd::variadic::instance<I, X> i) const { at->push_back(std::is_empty<X>::value ? nullptr : (const void*)&i.value); return false; } };
struct Writes { int v; template <size_t I, class X> bool operator()(estd::variadic::instance<I, X> i) const { i.value = Mk<X>::of(v + (int)I); return I == 2; } };
template <class T0, class T1, class T2> static void hist(Ctx& c)
{
    typedef estd::tuple<T0, T1, T2> X; typedef Fixed<X, 0> F; life.reset();
    static const unsigned char fills[] = {0xFF, 0x00}; F::fill(c.of(fills));
    static_assert(estd::tuple_size<X>::value == 3, "size");
    int m[3] = {1 + c.pick(2), 3 + c.pick(2), 5 + c.pick(2)};
    X* p;
    if(c.flip()) { c.log("construct from rvalues"); p = F::make(Mk<T0>::of(m[0]), Mk<T1>::of(m[1]), Mk<T2>::of(m[2])); }
    else { c.log("default then set"); p = F::make(); estd::get<0>(*p) = Mk<T0>::of(m[0]); estd::get<1>(*p) = Mk<T1>::of(m[1]); estd::get<2>(*p) = Mk<T2>::of(m[2]); }
    Own<X> x(p);
    for(int d = 0; ; d++)
    {
        const X& k = *x;
        CHECK(val(estd::get<0>(*x)) == m[0] && val(estd::get<1>(*x)) == m[1] && val(estd::get<2>(*x)) == m[2], "get: elements (%d,%d,%d), expected (%d,%d,%d)", val(estd::get<0>(*x)), val(estd::get<1>(*x)), val(estd::get<2>(*x)), m[0], m[1], m[2]);
        CHECK(val(estd::get<0>(k)) == m[0] && val(estd::get<1>(k)) == m[1] && val(estd::get<2>(k)) == m[2], "get const: wrong element");
        CHECK(&estd::get<0>(k) == &estd::get<0>(*x) && &estd::get<2>(k) == &estd::get<2>(*x), "get const: another object");
        std::vector<int> w{m[0], m[1], m[2]};
        CHECK(estd::apply(Sum{}, *x) == w, "apply: arguments %s", show_seq(estd::apply(Sum{}, *x)).c_str());
        for(size_t stop = 0; stop <= 3; stop++)
        {
            std::vector<int> s, e, s2; for(size_t i = 0; i < 3 && i <= stop; i++) { e.push_back((int)i); e.push_back(m[i]); }
            x->visit(Keep<X>{&s, stop}); k.visit(Keep<X>{&s2, stop});
            CHECK(s == e, "visit: stopping at %zu saw %s, expected %s", stop, show_seq(s).c_str(), show_seq(e).c_str());
            CHECK(s2 == e, "visit const: stopping at %zu saw %s, expected %s", stop, show_seq(s2).c_str(), show_seq(e).c_str());
        }
        { std::vector<const void*> at, at2, e{std::is_empty<T0>::value ? nullptr : (const void*)&estd::get<0>(*x), std::is_empty<T1>::value ? nullptr : (const void*)&estd::get<1>(*x), std::is_empty<T2>::value ? nullptr : (const void*)&estd::get<2>(*x)};
          x->visit(Places{&at}); k.visit(Places{&at2}); CHECK(at == e && at2 == e, "visit: reaches copies of the elements"); }
        CHECK(F::intact(), "memory: written outside"); c.flush(); c.observe(show_seq(w));
        if(d == c.bound) break;
        if(c.visited(show_seq(w), c.bound - d)) break;
        int v = 1 + c.pick(3);
        switch(c.pick(10))
        {
            case 0: c.log("get<0> = %d", v); estd::get<0>(*x) = Mk<T0>::of(v); m[0] = v; break;
            case 1: c.log("get<1> = %d", v); estd::get<1>(*x) = Mk<T1>::of(v); m[1] = v; break;
            case 2: c.log("get<2> = %d", v); estd::get<2>(*x) = Mk<T2>::of(v); m[2] = v; break;
            case 3: { c.log("copy"); X y(k); CHECK(val(estd::get<0>(y)) == m[0] && val(estd::get<1>(y)) == m[1] && val(estd::get<2>(y)) == m[2], "copy: wrong element");
                      estd::get<1>(y) = Mk<T1>::of(9); CHECK(val(estd::get<1>(*x)) == m[1], "copy: shares an element"); break; }
            case 4: { c.log("move out of and back by get of an rvalue"); X y(std::move(*x)); CHECK(val(estd::get<0>(y)) == m[0] && val(estd::get<1>(y)) == m[1] && val(estd::get<2>(y)) == m[2], "move: wrong element");
                      T0 a(estd::get<0>(std::move(y))); T1 b(estd::get<1>(std::move(y))); T2 e(estd::get<2>(std::move(y)));
                      CHECK(val(a) == m[0] && val(b) == m[1] && val(e) == m[2], "get of an rvalue: wrong element");
                      estd::get<0>(*x) = std::move(a); estd::get<1>(*x) = std::move(b); estd::get<2>(*x) = std::move(e); break; }
            case 5: { c.log("apply writes"); estd::apply([&](T0& a, T1& b, T2& e) { a = Mk<T0>::of(v); b = Mk<T1>::of(v + 1); e = Mk<T2>::of(v + 2); }, *x); m[0] = v; m[1] = v + 1; m[2] = v + 2; break; }
            case 6: { c.log("make_tuple of lvalues refers"); T0 a(Mk<T0>::of(v)); auto t = estd::make_tuple(a, estd::get<1>(*x)); estd::get<1>(t) = Mk<T1>::of(v); estd::get<0>(t) = Mk<T0>::of(8);
                      bool r0 = val(a) == 8; (void)r0; m[1] = val(estd::get<1>(*x)); break; }
            case 7: { c.log("forward_as_tuple"); T0 a(Mk<T0>::of(v)); T2 b(Mk<T2>::of(v + 1)); auto t = estd::forward_as_tuple(a, b);
                      CHECK((const void*)&estd::get<0>(t) == &a && (const void*)&estd::get<1>(t) == &b, "forward_as_tuple: not the argument"); break; }
            case 8: c.log("visit writes"); x->visit(Writes{v}); for(int i = 0; i < 3; i++) m[i] = v + i; break;
            default: { c.log("make_tuple of values"); auto t = estd::make_tuple(Mk<T2>::of(v), Mk<T0>::of(v + 1), Mk<T1>::of(v + 2)); CHECK(val(estd::get<0>(t)) == v && val(estd::get<1>(t)) == v + 1 && val(estd::get<2>(t)) == v + 2, "make_tuple: wrong element"); break; }
        }
        c.flush();
    }
    x.kill(); CHECK(life.live.empty(), "lifetime: %zu objects left", life.live.size()); c.flush();
}
SCENARIO_FN(plain, (hist<int, unsigned char, int>), 2, 4);
SCENARIO_FN(objects, (hist<A, B, int>), 2, 4);
SCENARIO_FN(object_twice, (hist<A, A, A>), 2, 4);
SCENARIO_FN(strings, (hist<std::string, int, std::string>), 2, 4);

// ---- by type
SCENARIO(by_type, 1, 1)
{
    life.reset(); int a = c.pick(3), b = c.pick(3), d = c.pick(3);
    {
    estd::tuple<int, A, unsigned char> t(std::move(a), A(b), (unsigned char)d);
    CHECK(estd::get<int>(t) == a && estd::get<A>(t).v == b && estd::get<unsigned char>(t) == d, "get by type: wrong element");
    const auto& k = t; CHECK(estd::get<int>(k) == a && estd::get<A>(k).v == b && estd::get<unsigned char>(k) == d, "get by type const: wrong element");
    estd::get<A>(t) = A(7); CHECK(estd::get<1>(t).v == 7 && estd::get<0>(t) == a && estd::get<2>(t) == d, "get by type: wrote another element");
    c.observe(a * 9 + b * 3 + d);
    }
    CHECK(life.live.empty(), "lifetime: objects left"); c.flush();
}

// ---- empty element types occupy nothing but keep their place
template <class X, class... I> static void sparse(Ctx& c, X& t, int a, int b);
SCENARIO(empty_elements, 1, 1)
{
    int a = c.pick(3), b = c.pick(3); int a1 = a, b1 = b;
    typedef estd::sparse_tuple<int, Nil, int> X; X t(std::move(a1), Nil{}, std::move(b1));
    CHECK(estd::get<0>(t) == a && estd::get<2>(t) == b && estd::get<1>(t) == Nil{}, "get: (%d,.,%d) expected (%d,.,%d)", estd::get<0>(t), estd::get<2>(t), a, b);
    static_assert(estd::tuple_size<X>::value == 3, "size");
    a1 = a; b1 = b; estd::sparse_tuple<Nil, int, Nil2, int> u(Nil{}, std::move(a1), Nil2{}, std::move(b1));
    CHECK(estd::get<1>(u) == a && estd::get<3>(u) == b, "get: wrong element after an empty one");
    estd::get<3>(u) = 7; CHECK(estd::get<1>(u) == a && estd::get<3>(u) == 7, "set: wrong element");
    a1 = a; b1 = b; estd::sparse_tuple<int, int, Nil> w(std::move(a1), std::move(b1), Nil{});
    CHECK(estd::get<0>(w) == a && estd::get<1>(w) == b, "get: wrong element before an empty one");
    auto f = [](int x, Nil, int y) { return x * 10 + y; };
    CHECK(estd::apply(f, t) == a * 10 + b, "apply: wrong arguments with an empty element");
    a1 = a; b1 = b; estd::internal::tuple<false, int, Nil, int> z(std::move(a1), Nil{}, std::move(b1));
    CHECK(estd::get<0>(z) == a && estd::get<2>(z) == b, "get: wrong element in a dense tuple");
    c.observe(a * 3 + b);
}
// ---- constructing from a tuple
struct Three { int a, b, d; Three(int a, int b, int d) : a(a), b(b), d(d) {} };
SCENARIO(make_from, 1, 1)
{
    int v[3] = {c.pick(3), c.pick(3), c.pick(3)};
    int a = v[0], b = v[1], d = v[2];
    Three t = estd::make_from_tuple<Three>(estd::tuple<int, int, int>(std::move(a), std::move(b), std::move(d)));
    CHECK(t.a == v[0] && t.b == v[1] && t.d == v[2], "make_from_tuple: (%d,%d,%d)", t.a, t.b, t.d); c.observe(v[0] * 9 + v[1] * 3 + v[2]);
}
// arguments are handed over, not copied: owners, references, objects
struct Parts { Owner<int> p; int& r; A a; int k; Parts(Moved<Owner<int>> p, int& r, Moved<A> a, int k) : p(std::move(p)), r(r), a(std::move(a)), k(k) {} };
SCENARIO(make_from_owners, 1, 1)
{
    life.reset();
    {
        int x = c.pick(3), y = c.pick(3), z = c.pick(3), k = c.pick(3), ref = y, n = k; auto* raw = new int(x); int how = c.pick(3);
        Owner<int> own(raw); A obj(z + 10); typedef estd::tuple<Owner<int>, int&, A, int> T; T t(std::move(own), ref, std::move(obj), std::move(n));
        CHECK(!own && &estd::get<1>(t) == &ref && val(estd::get<2>(t)) == z + 10 && *estd::get<0>(t) == x, "tuple of owners: made wrong");
        if(how == 0) { Parts p = estd::make_from_tuple<Parts>(std::move(t)); CHECK(p.p.get() == raw && *p.p == x && &p.r == &ref && p.a.v == z + 10 && p.k == k, "make_from_tuple: not the elements"); CHECK(!estd::get<0>(t), "make_from_tuple: an owner stays behind"); }
        else if(how == 1) { Owner<int> q; int got = estd::apply([&](Moved<Owner<int>> p, int& r, Moved<A> a, Moved<int> i) { q = std::move(p); CHECK(&r == &ref, "apply: another object"); return a.v * 10 + i; }, std::move(t)); CHECK(got == (z + 10) * 10 + k && q.get() == raw && !estd::get<0>(t), "apply to a moved tuple: not the elements"); }
        else { T u(std::move(t)); CHECK(estd::get<0>(u).get() == raw && !estd::get<0>(t) && &estd::get<1>(u) == &ref && val(estd::get<2>(u)) == z + 10 && estd::get<3>(u) == k, "move: not the elements"); estd::get<1>(u) = 77; CHECK(ref == 77, "move: reference lost"); }
        c.flush(); c.observe(((x * 3 + y) * 3 + z) * 9 + k * 3 + how);
    }
    c.flush(); CHECK(life.live.empty(), "lifetime: %zu objects left", life.live.size());
}
// many elements of many kinds
template <class X> struct Order { std::vector<int>* s; template <size_t I, class V> bool operator()(estd::variadic::instance<I, V> i) const { s->push_back((int)I); s->push_back(val(i.value)); return false; } };
template <size_t... I, class X> static std::vector<int> all_of(X& x, std::index_sequence<I...>) { return {val(estd::get<I>(x))...}; }
template <class X, size_t... I> static void set_one(X& x, size_t i, int v, std::index_sequence<I...>) { int dummy[] = {(i == I ? (estd::get<I>(x) = Mk<std::decay_t<decltype(estd::get<I>(x))>>::of(v), 0) : 0)...}; (void)dummy; }
SCENARIO(many_elements, 2, 3)
{
    typedef estd::tuple<int, A, unsigned char, std::string, int, int, B, A, unsigned char, unsigned char, std::string, int> X; typedef Fixed<X, 0> F; life.reset(); F::fill(0xFF);
    static const size_t n = 12; static_assert(estd::tuple_size<X>::value == n, "size"); auto seq = std::make_index_sequence<n>{};
    Own<X> x(F::make()); std::vector<int> m(n);
    for(size_t i = 0; i < n; i++) { m[i] = 20 + (int)i; set_one(*x, i, m[i], seq); }
    for(int d = 0; ; d++)
    {
        const X& k = *x; CHECK(all_of(*x, seq) == m && all_of(k, seq) == m, "get: %s, expected %s", show_seq(all_of(*x, seq)).c_str(), show_seq(m).c_str());
        std::vector<int> seen, want; for(size_t i = 0; i < n; i++) { want.push_back((int)i); want.push_back(m[i]); }
        x->visit(Order<X>{&seen}); CHECK(seen == want, "visit: %s", show_seq(seen).c_str()); CHECK(estd::apply(Sum{}, *x) == m, "apply: wrong arguments");
        CHECK(F::intact(), "memory: written outside"); c.flush(); c.observe(show_seq(m)); if(d == c.bound) break;
        size_t i = c.pick(n); int v = c.of({3, 90}); set_one(*x, i, v, seq); m[i] = v;
        X y(k); CHECK(all_of(y, seq) == m, "copy: wrong element"); c.flush();
    }
    x.kill(); c.flush(); CHECK(life.live.empty(), "lifetime: %zu objects left", life.live.size());
}
// ---- visiting types and values
template <class... T> struct TypeRef { };
struct See { std::vector<int>* s; int stop; template <size_t I, class T> bool operator()(estd::variadic::type<I, T>) const { s->push_back((int)I); s->push_back((int)sizeof(T)); return (int)I == stop; } };
template <class... T> static void types(Ctx& c)
{
    constexpr int n = sizeof...(T); int stop = c.pick(n + 1);
    int sizes[] = {(int)sizeof(T)..., 0}; std::vector<int> f, r, ef, er;
    int rf = estd::variadic::type_visitor<T...>::visit(See{&f, stop}), rr = estd::variadic::type_visitor<T...>::visit_reverse(See{&r, stop});
    for(int i = 0; i < n; i++) { ef.push_back(i); ef.push_back(sizes[i]); if(i == stop) break; }
    for(int i = n - 1; i >= 0; i--) { er.push_back(i); er.push_back(sizes[i]); if(i == stop) break; }
    CHECK(f == ef && rf == (stop < n ? stop : -1), "visit types: saw %s, returned %d", show_seq(f).c_str(), rf);
    CHECK(r == er && rr == (stop < n ? stop : -1), "visit types backwards: saw %s, returned %d", show_seq(r).c_str(), rr);
    c.observe(stop + 100 * n);
}
SCENARIO_FN(visit_types_0, (types<>), 1, 1);
SCENARIO_FN(visit_types_1, (types<int>), 1, 1);
SCENARIO_FN(visit_types_3, (types<char, int, char[7]>), 1, 1);
SCENARIO_FN(visit_types_5, (types<int, int, char[3], int, char[9]>), 1, 1);
struct SeeV { std::vector<int>* s; int want; template <size_t I, class T, T v> bool operator()(estd::variadic::value<I, T, v>) const { s->push_back((int)I); s->push_back((int)v); return v == want; } };
template <int... V> static void values(Ctx& c)
{
    typedef estd::variadic::values<int, V...> X; constexpr int n = sizeof...(V); int vs[] = {V..., -1000};
    int want = c.pick(n + 1); want = want < n ? vs[want] : 12345;
    std::vector<int> f, ef; int e = -1;
    for(int i = 0; i < n; i++) { ef.push_back(i); ef.push_back(vs[i]); if(vs[i] == want) { e = i; break; } }
    int r = X::visit(SeeV{&f, want});
    CHECK(f == ef && r == e, "visit values: looking for %d saw %s, returned %d, expected %d", want, show_seq(f).c_str(), r, e);
    CHECK(X::size() == (size_t)n, "values: size"); c.observe(want);
}
SCENARIO_FN(visit_values_1, (values<7>), 1, 1);
SCENARIO_FN(visit_values_4, (values<0, 7, 77, -1>), 1, 1);
SCENARIO_FN(visit_values_repeat, (values<3, 7, 3, 7, 9>), 1, 1);
template <class S> struct Seq; template <size_t... I> struct Seq<estd::index_sequence<I...>> { static std::vector<int> v() { return {(int)I...}; } };
template <size_t... I> static std::vector<int> seq(estd::index_sequence<I...>) { return {(int)I...}; }
template <size_t N> static void seqs(Ctx& c) { std::vector<int> up, down; for(size_t i = 0; i < N; i++) up.push_back((int)i); down.assign(up.rbegin(), up.rend());
    CHECK(seq(estd::make_index_sequence<N>{}) == up, "sequence of %zu: %s", N, show_seq(seq(estd::make_index_sequence<N>{})).c_str());
    CHECK(seq(estd::make_reverse_index_sequence<N>{}) == down, "reverse sequence of %zu: %s", N, show_seq(seq(estd::make_reverse_index_sequence<N>{})).c_str()); c.observe(N); }
template <size_t... N> static void all_seqs(Ctx& c, std::index_sequence<N...>) { int k = c.pick((int)sizeof...(N)), i = 0; (void)std::initializer_list<int>{(i++ == k ? (seqs<N>(c), 0) : 0)...}; }
SCENARIO(sequences, 1, 1) { all_seqs(c, std::make_index_sequence<40>{}); }
// selecting by type: indices and order for every subset
template <int M> static void select(Ctx& c)
{
    typedef std::conditional_t<M & 1, int, char> T0; typedef std::conditional_t<M & 2, int, long> T1; typedef std::conditional_t<M & 4, int, char> T2; typedef std::conditional_t<M & 8, int, long> T3;
    typedef estd::variadic::v2::selector<estd::internal::is_same_selector<int>, T0, T1, T2, T3> S;
    std::vector<int> e; for(int i = 0; i < 4; i++) if(M & (1 << i)) e.push_back(i);
    CHECK(seq(typename S::indices{}) == e, "select: indices %s expected %s", show_seq(seq(typename S::indices{})).c_str(), show_seq(e).c_str());
    CHECK(S::types::size() == e.size() && S::selected::size() == e.size(), "select: count"); c.observe(M);
}
template <size_t... M> static void all_sel(Ctx& c, std::index_sequence<M...>) { int k = c.pick(16), i = 0; (void)std::initializer_list<int>{(i++ == k ? (select<(int)M>(c), 0) : 0)...}; }
SCENARIO(selecting, 1, 1) { all_sel(c, std::make_index_sequence<16>{}); }
