// Property C13: an expected holds exactly one of a value or an error, the one last put in.
// ALSO: DEVICE
#include <estd/string.h>
#include <estd/expected.h>
#include "mc.h"
using namespace mc;

typedef TrackedT<1> A; typedef TrackedT<2> B;
struct NA : TrackedT<4> { explicit NA(int v) : TrackedT<4>(v) {} NA() {} NA(const NA&) = default; NA(NA&&) = default; NA& operator=(const NA&) = delete; };   // not assignable
template <class T> static int val(const T& t) { return t.v; }
static int val(int v) { return v; }
static int val(unsigned char v) { return v; }
static int val(const std::string& s) { return s.size() < 40 ? -1 : atoi(s.c_str() + 39); }
static int val(estd::monostate) { return 0; }
template <class T> struct Mk { static T of(int v) { return T(v); } };
template <> struct Mk<std::string> { static std::string of(int v) { return "a string too long for the small buffer " + std::to_string(v); } };
struct M { bool ok; int v; };
static std::string key(const M& m) { return (m.ok ? "<" : "!") + std::to_string(m.v); }

template <class T, class E, class X> static void same(Ctx& c, const char* who, X& x, const M& m)
{
    const X& k = x;
    CHECK(x.has_value() == m.ok && (bool)k == m.ok, "%s: has_value %d, expected %s", who, x.has_value(), key(m).c_str());
    bool threw = false; int got = 0;
    try { got = val(x.value()); } catch(const estd::bad_expected_access<E>& e) { threw = true; got = val(e.error()); }
    CHECK(threw == !m.ok, "%s: value() of %s %s", who, key(m).c_str(), threw ? "threw" : "did not throw");
    CHECK(got == m.v, "%s: %s carries %d, expected %d", who, m.ok ? "value()" : "the exception", got, m.v);
    threw = false;
    try { got = val(k.value()); } catch(const estd::bad_expected_access<E>& e) { threw = true; got = val(e.error()); }
    CHECK(threw == !m.ok && got == m.v, "%s: const value() differs", who);
    threw = false;
    try { X t(k); got = -1; auto v = std::move(t).value(); got = val(v); } catch(const estd::bad_expected_access<E>& e) { threw = true; got = val(e.error()); }
    CHECK(threw == !m.ok && got == m.v, "%s: value() of a temporary differs", who);
    if(!m.ok) { X t(k); E e = std::move(t).error(); CHECK(val(e) == m.v, "%s: error() of a temporary differs", who); }
    if(m.ok) { CHECK(val(*x) == m.v && val(*k) == m.v, "%s: dereferenced value differs", who); }
    else { CHECK(val(x.error()) == m.v && val(k.error()) == m.v, "%s: error %d, expected %d", who, val(k.error()), m.v); }
}
template <class T, class E, class X> static void same_or(Ctx& c, X& x, const M& m)
{
    for(int d : {3, 9}) { T dv = Mk<T>::of(d); T g = x.value_or(dv); CHECK(val(g) == (m.ok ? m.v : d), "value_or(%d) of %s gave %d", d, key(m).c_str(), val(g)); CHECK(val(dv) == d, "value_or changed the default"); }
    if(m.ok) CHECK(&*x == x.operator->(), "arrow: another object");
}
template <class T, class E> static void hist(Ctx& c)
{
    typedef estd::expected<T, E> X; typedef Fixed<X, 0> F; life.reset();
    static const unsigned char fills[] = {0xFF, 0x00}; F::fill(c.of(fills));
    M m; X* p; int v0 = 1 + c.pick(2);
    switch(c.pick(6))
    {
        case 0: c.log("default"); p = F::make(); m = {true, val(T())}; break;
        case 1: c.log("value %d", v0); p = F::make(Mk<T>::of(v0)); m = {true, v0}; break;
        case 2: { c.log("const value %d", v0); T t = Mk<T>::of(v0); p = F::make((const T&)t); m = {true, v0}; break; }
        case 3: c.log("in_place %d", v0); p = F::make(estd::in_place_t{}, Mk<T>::of(v0)); m = {true, v0}; break;
        case 4: c.log("unexpect %d", v0); p = F::make(estd::unexpect_t{}, Mk<E>::of(v0)); m = {false, v0}; break;
        default: { c.log("unexpected %d", v0); estd::unexpected<E> u(Mk<E>::of(v0)); p = F::make(u); m = {false, v0}; break; }
    }
    Own<X> x(p);
    for(int d = 0; ; d++)
    {
        same<T, E>(c, "held", *x, m); same_or<T, E>(c, *x, m);
        CHECK(F::intact(), "memory: written outside"); c.flush(); c.observe(key(m));
        if(d == c.bound) break;
        if(c.visited(key(m), c.bound - d)) break;
        int v = 1 + c.pick(3);
        switch(c.pick(6))
        {
            case 0: { c.log("= const %d", v); T t = Mk<T>::of(v); *x = (const T&)t; m = {true, v}; CHECK(val(t) == v, "assignment changed its source"); break; }
            case 1: c.log("= %d", v); *x = Mk<T>::of(v); m = {true, v}; break;
            case 2: { c.log("= unexpected %d", v); estd::unexpected<E> u(Mk<E>::of(v)); *x = u; m = {false, v}; CHECK(val(u.error()) == v, "assignment changed its source"); break; }
            case 3: { c.log("emplace %d", v); auto& r = x->emplace(Mk<T>::of(v)); CHECK(&r == &**x, "emplace: returned another object"); m = {true, v}; break; }
            case 4: { c.log("copies"); X t((const X&)*x); same<T, E>(c, "copy", t, m); same<T, E>(c, "source", *x, m); X w(t); same<T, E>(c, "copy", w, m); break; }
            case 5: { c.log("moves"); X s((const X&)*x); X t(std::move(s)); same<T, E>(c, "moved", t, m); break; }
        }
        if(d >= 0) c.flush();
    }
    x.kill(); c.flush();
    CHECK(life.live.empty(), "lifetime: %zu objects outlive it", life.live.size());
}
SCENARIO_FN(int_or_int, (hist<int, int>), 5, 8);
SCENARIO_FN(int_or_object, (hist<int, A>), 5, 8);
SCENARIO_FN(object_or_int, (hist<A, int>), 5, 8);
SCENARIO_FN(object_or_object, (hist<A, B>), 5, 8);
SCENARIO_FN(string_or_byte, (hist<std::string, unsigned char>), 5, 8);
SCENARIO_FN(byte_or_string, (hist<unsigned char, std::string>), 5, 8);
SCENARIO(nothing_or_object, 5, 8)
{
    typedef estd::expected<void, A> X; typedef Fixed<X, 0> F; life.reset(); F::fill(c.flip() ? 0xff : 0);
    M m; X* p;
    if(c.flip()) { p = F::make(); m = {true, 0}; } else { p = F::make(estd::unexpected<A>(A(4))); m = {false, 4}; }
    Own<X> x(p);
    for(int d = 0; ; d++)
    {
        same<estd::monostate, A>(c, "held", *x, m); c.flush();
        if(d == c.bound) break;
        if(c.visited(key(m), c.bound - d)) break;
        int v = 1 + c.pick(2);
        switch(c.pick(2))
        {
            case 0: { *x = estd::unexpected<A>(A(v)); m = {false, v}; break; }
            case 1: { X t((const X&)*x); same<estd::monostate, A>(c, "copy", t, m); break; }
        }
    }
    x.kill(); c.flush(); CHECK(life.live.empty(), "lifetime: leaked");
}
template <class T, class E> struct After { char pad; estd::expected<T, E> o; };
SCENARIO(alignment, 1, 1)
{
    After<std::string, int> a; CHECK((uintptr_t)&*a.o % alignof(std::string) == 0, "alignment: value misaligned");
    After<int, std::string> b; b.o = estd::unexpected<std::string>(std::string("x")); CHECK((uintptr_t)&b.o.error() % alignof(std::string) == 0, "alignment: error misaligned");
    After<char, double> e; e.o = estd::unexpected<double>(1.5); CHECK(e.o.error() == 1.5, "error: value"); 
}
