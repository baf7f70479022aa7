// Property C15: a function object calls the callable last put in, with the arguments given.
#include <estd/functional.h>
#include "mc.h"
#include <memory>
using namespace mc;
using estd::experimental::function;

typedef TrackedT<1> A; typedef TrackedT<2> Arg; typedef TrackedT<3> Res;
// a callable with state: adds its argument to a running total
struct Acc { A a; explicit Acc(int v) : a(v) {} int operator()(int x) { a.v += x; return a.v; } };
struct Big { int pad[40]; A a; explicit Big(int v) : a(v) { for(int& p : pad) p = v; } int operator()(int x) { for(int p : pad) if(p != pad[0]) return -1; a.v += x; pad[39] = pad[0]; return a.v; } };
struct MoveOnly { Owner<A> a; explicit MoveOnly(int v) : a(new A(v)) {} int operator()(int x) { a->v += x; return a->v; } };
static int plain_total; static int plain(int x) { return plain_total += x; }

// ---- owning functions: two of them plus temporaries
struct M { bool has = false; int total = 0; };
template <class F> static void owning(Ctx& c)
{
    typedef function<int(int)> X; life.reset(); plain_total = 0;
    {
    Fixed<X, 0>::fill(0xA5); Fixed<X, 1>::fill(0xA5);
    Own<X> f(Fixed<X, 0>::make(F(1))), g(Fixed<X, 1>::make(F(2)));
    X* x[2] = {f.p, g.p}; M m[2] = {{true, 1}, {true, 2}};
    for(int d = 0; ; d++)
    {
        for(int i = 0; i < 2; i++)
        {
            CHECK((bool)*x[i] == m[i].has, "bool: function %d says %d, expected %d", i, (bool)*x[i], m[i].has);
            if(m[i].has) { int r = (*x[i])(0); CHECK(r == m[i].total, "call: function %d gives %d, expected %d", i, r, m[i].total); }
        }
        CHECK((long)life.live.size() == m[0].has + m[1].has, "lifetime: %zu callables alive, expected %d", life.live.size(), m[0].has + m[1].has);
        CHECK((Fixed<X, 0>::intact() && Fixed<X, 1>::intact()), "memory: written outside"); c.flush();
        std::string key; for(auto& e : m) key += (e.has ? "f" : "-") + std::to_string(e.has ? e.total : 0) + ";";
        c.observe(key);
        if(d == c.bound) break;
        if(c.visited(key, c.bound - d)) break;
        int i = c.pick(2), v = 1 + c.pick(2);
        switch(c.pick(6))
        {
            case 0: if(m[i].has) { c.log("%d(%d)", i, v); int r = (*x[i])(std::move(v)); m[i].total += v; CHECK(r == m[i].total, "call: gave %d, expected %d", r, m[i].total); } break;
            case 1: c.log("%d = new callable %d", i, v * 10); *x[i] = F(v * 10); m[i] = {true, v * 10}; break;
            case 2: { c.log("%d = function temp %d", i, v * 10); *x[i] = X(F(v * 10)); m[i] = {true, v * 10}; break; }
            case 3: c.log("%d = move %d", i, 1 - i); *x[i] = std::move(*x[1 - i]); m[i] = m[1 - i]; m[1 - i].has = false; break;
            case 4: { c.log("move construct from %d and back", i); X t(std::move(*x[i])); CHECK((bool)t == m[i].has, "move construct: bool"); CHECK(!*x[i], "move construct: source still set");
                      if(m[i].has) { int r = t(std::move(v)); m[i].total += v; CHECK(r == m[i].total, "move construct: call gave %d", r); } *x[i] = std::move(t); CHECK(!t, "move assign: source still set"); break; }
            default: if(m[i].has) { c.log("call through a non-owning copy"); estd::detail::function<int(int)> r(*x[i]), s; CHECK((bool)r && !s, "non-owning: bool"); s = r; int q = s(std::move(v)); m[i].total += v; CHECK(q == m[i].total, "non-owning: gave %d", q); } break;
        }
        c.flush();
    }
    }
    CHECK(life.live.empty(), "lifetime: %zu callables left", life.live.size()); c.flush();
}
SCENARIO_FN(owning_small, owning<Acc>, 4, 7);
SCENARIO_FN(owning_large, owning<Big>, 4, 7);
SCENARIO_FN(owning_move_only, owning<MoveOnly>, 4, 7);

// ---- functions declared never to be empty
template <class F> static void never_empty(Ctx& c)
{
    typedef function<int(int), false> X; life.reset();
    {
    int total = 1; Fixed<X, 0>::fill(0xA5); Own<X> f(Fixed<X, 0>::make(F(1)));
    for(int d = 0; d < c.bound; d++)
    {
        int v = 1 + c.pick(2);
        switch(c.pick(3))
        {
            case 0: c.log("call(%d)", v); { int r = (*f.p)(std::move(v)); total += v; CHECK(r == total, "call: gave %d, expected %d", r, total); } break;
            case 1: c.log("= new callable %d", v * 10); *f.p = F(v * 10); total = v * 10; break;
            default: { c.log("another, destroyed unused"); X g{F(v)}; CHECK((bool)g, "bool: never empty"); } break;
        }
        CHECK((bool)*f.p, "bool: never empty"); CHECK(life.live.size() == 1, "lifetime: %zu callables alive, expected 1", life.live.size()); c.flush(); c.observe(total);
    }
    }
    CHECK(life.live.empty(), "lifetime: %zu callables left", life.live.size()); c.flush();
}
SCENARIO_FN(never_empty_small, never_empty<Acc>, 4, 6);
SCENARIO_FN(never_empty_large, never_empty<Big>, 4, 6);

// ---- copying an owning function
SCENARIO(copying, 1, 1)
{
    typedef function<int(int)> X; life.reset();
    {
        X f(Acc(1)); const X& k = f; alignas(X) unsigned char b[sizeof(X)]; X* g = new (b) X(k);
        int r = (*g)(5); CHECK(r == 6, "copy: gives %d", r);
        int q = f(0); CHECK(q == 1, "copy: calling the copy changed the original's callable (%d)", q);
        g->~X();
    }
    CHECK(life.live.empty(), "copy: callables left"); c.flush();
}

// ---- putting in a callable that stays in use
struct Kept { int* p; Kept(int& v) : p(&v) {} Kept(const Kept& o) : p(o.p) {} Kept(Kept&& o) : p(o.p) { o.p = nullptr; } int operator()(int v) { return *p += v; } };
SCENARIO(callable_in_use, 1, 1)
{
    typedef function<int(int)> X; bool assign = c.flip(); int n = 1, other = 0; Kept k(n); X f{Kept(assign ? other : n)};
    if(assign) f = k; else { X g(k); int r = g(2); CHECK(r == 3, "in use: gives %d", r); n = 1; }
    if(assign) { int r = f(2); CHECK(r == 3, "in use: gives %d", r); }
    CHECK(k.p == &n, "in use: the callable put in by name was emptied (%s)", assign ? "assigned" : "constructed from"); c.flush(); c.observe(assign);
}

// ---- non-owning functions over every way to dispatch
template <template <class> class Impl> static void dispatch(Ctx& c)
{
    typedef estd::detail::v2::function<int(int), Impl> X; life.reset();
    {
    typename X::template model<Acc> m0(Acc(1)); typename X::template model<Big> m1(Big(2)); typename X::template model<MoveOnly> m2(MoveOnly(3)); typename X::template model<Acc> m3(Acc(4));
    typename X::model_base* mb[] = {&m0, &m1, &m2, &m3}; int total[] = {1, 2, 3, 4};
    X f[2]; int w[2] = {-1, -1};
    for(int d = 0; ; d++)
    {
        std::string key;
        for(int i = 0; i < 2; i++) { CHECK((bool)f[i] == (w[i] >= 0), "bool"); if(w[i] >= 0) { int r = f[i](0); CHECK(r == total[w[i]], "call: reaches callable giving %d, expected %d of callable %d", r, total[w[i]], w[i]); } key += std::to_string(w[i]) + ","; }
        for(int t : total) key += std::to_string(t) + ",";
        c.flush(); c.observe(key);
        if(d == c.bound) break;
        if(c.visited(key, c.bound - d)) break;
        int i = c.pick(2);
        switch(c.pick(4))
        {
            case 0: { int k = c.pick(4); c.log("f%d = model %d", i, k); f[i] = X(mb[k]); w[i] = k; break; }
            case 1: c.log("f%d = f%d", i, 1 - i); f[i] = f[1 - i]; w[i] = w[1 - i]; break;
            case 2: c.log("f%d = nothing", i); f[i] = X(); w[i] = -1; break;
            default: if(w[i] >= 0) { int v = 1 + c.pick(2); c.log("f%d(%d)", i, v); total[w[i]] += v; X t(f[i]); int r = t(std::move(v)); CHECK(r == total[w[i]], "call: gave %d, expected %d", r, total[w[i]]); } break;
        }
    }
    }
    CHECK(life.live.empty(), "lifetime: callables left"); c.flush();
}
SCENARIO_FN(dispatch_member_pointer, dispatch<estd::detail::impl::function_fnptr1>, 5, 7);
SCENARIO_FN(dispatch_function_pointer, dispatch<estd::detail::impl::function_fnptr2>, 5, 7);
SCENARIO_FN(dispatch_virtual, dispatch<estd::detail::impl::function_virtual>, 5, 7);

// ---- arguments and results of every kind arrive unchanged
struct ByVal { int* n; int operator()(Arg a, Arg b) { *n += 1; return a.v * 10 + b.v; } };
struct ByRef { Arg* want; bool* same; void operator()(Arg& a, const Arg& b, int x) { *same = &a == want; a.v += b.v * 10 + x; } };
struct ByMove { int operator()(Owner<A> p, Moved<Arg> a) { Arg mine(std::move(a)); return p->v * 10 + mine.v; } };
struct Gives { Res operator()(short a, unsigned char b) { return Res(a * 1000 + b); } };
struct GivesRef { Arg* p; Arg& operator()() { return *p; } };
template <template <class> class Impl> static void arguments(Ctx& c)
{
    life.reset(); int a = c.pick(4), b = c.pick(4);
    {
        typedef estd::detail::v2::function<int(Arg, Arg), Impl> X; int n = 0; typename X::template model<ByVal> m(ByVal{&n}); X f(&m);
        int r = f(Arg(a), Arg(b)); CHECK(r == a * 10 + b && n == 1, "by value: gave %d after %d calls", r, n);
        Arg la(a); r = f(la, la); CHECK(r == a * 11 && la.v == a, "by value: argument changed");
    }
    {
        typedef estd::detail::v2::function<void(Arg&, const Arg&, int), Impl> X; Arg x(a), y(b); bool same = false; typename X::template model<ByRef> m(ByRef{&x, &same}); X f(&m);
        f(x, y, 3); CHECK(same && x.v == a + b * 10 + 3 && y.v == b, "by reference: not the argument itself");
    }
    {
        typedef estd::detail::v2::function<int(Owner<A>, Moved<Arg>), Impl> X; typename X::template model<ByMove> m(ByMove{}); X f(&m); Arg x(b);
        int r = f(Owner<A>(new A(a)), std::move(x)); CHECK(r == a * 10 + b, "by move: gave %d", r);
    }
    {
        typedef estd::detail::v2::function<Res(short, unsigned char), Impl> X; typename X::template model<Gives> m(Gives{}); X f(&m);
        static const short s[] = {-32768, -1, 0, 30}; static const unsigned char u[] = {0, 1, 200, 255};
        Res r = f(short(s[a]), (unsigned char)u[b]); CHECK(r.v == s[a] * 1000 + u[b], "narrow arguments: gave %d", r.v);
    }
    {
        typedef estd::detail::v2::function<Arg&(), Impl> X; Arg x(a); typename X::template model<GivesRef> m(GivesRef{&x}); X f(&m);
        f().v = 77; CHECK(x.v == 77, "reference result: another object");
    }
    CHECK(life.live.empty(), "lifetime: %zu objects left", life.live.size()); c.flush(); c.observe(a * 10 + b);
}
SCENARIO_FN(arguments_member_pointer, arguments<estd::detail::impl::function_fnptr1>, 1, 1);
SCENARIO_FN(arguments_function_pointer, arguments<estd::detail::impl::function_fnptr2>, 1, 1);
SCENARIO_FN(arguments_virtual, arguments<estd::detail::impl::function_virtual>, 1, 1);

// ---- bound to a member of an object
struct Obj { int v = 0; int add(int x) { v += x; return v; } int sub(int x) { v -= x; return v; } void note(int a, int b) { v = a * 10 + b; } int take(Owner<A> p, Moved<Arg> a) { Arg mine(std::move(a)); return v = p->v * 10 + mine.v; } void set(Arg& a, const Arg& b) { v = a.v; a.v = b.v; } };
template <template <class> class Impl> static void methods(Ctx& c)
{
    typedef estd::detail::v2::function<int(int), Impl> X; Obj o[2]; int w[2] = {0, 0};
    typename Impl<int(int)>::template method_model<Obj, &Obj::add> a0(&o[0]), a1(&o[1]); typename Impl<int(int)>::template method_model<Obj, &Obj::sub> s0(&o[0]), s1(&o[1]);
    {
        int a = 1 + c.pick(2), b = 5; life.reset(); typename Impl<int(Owner<A>, Moved<Arg>)>::template method_model<Obj, &Obj::take> t(&o[0]); estd::detail::v2::function<int(Owner<A>, Moved<Arg>), Impl> F(&t); Arg x(b);
        int r = F(Owner<A>(new A(a)), std::move(x)); CHECK(r == a * 10 + b && o[0].v == r, "method by move: gave %d", r); o[0].v = 0;
        typename Impl<void(Arg&, const Arg&)>::template method_model<Obj, &Obj::set> n(&o[0]); estd::detail::v2::function<void(Arg&, const Arg&), Impl> G(&n); Arg y(a), z(b); G(y, z); CHECK(o[0].v == a && y.v == b && z.v == b, "method by reference: not the arguments"); o[0].v = 0;
    }
    typename X::model_base* mb[] = {&a0, &a1, &s0, &s1};
    for(int d = 0; d < c.bound; d++)
    {
        int k = c.pick(4), v = 1 + c.pick(2); c.log("method %d (%d)", k, v); X f(mb[k]); int r = f(std::move(v)); w[k & 1] += k < 2 ? v : -v;
        CHECK(r == w[k & 1], "method: gave %d, expected %d", r, w[k & 1]); CHECK(o[0].v == w[0] && o[1].v == w[1], "method: objects (%d,%d), expected (%d,%d)", o[0].v, o[1].v, w[0], w[1]);
        c.observe(w[0] * 100 + w[1]);
    }
}
SCENARIO_FN(methods_member_pointer, methods<estd::detail::impl::function_fnptr1>, 4, 5);
SCENARIO_FN(methods_function_pointer, methods<estd::detail::impl::function_fnptr2>, 4, 5);
SCENARIO_FN(methods_virtual, methods<estd::detail::impl::function_virtual>, 4, 5);
SCENARIO(context_functions, 4, 5)
{
    Obj o[2]; int w[2] = {0, 0};
    estd::experimental::context_function<decltype(&Obj::add), &Obj::add> a0(&o[0]), a1(&o[1]); estd::experimental::context_function<decltype(&Obj::sub), &Obj::sub> s0(&o[0]);
    estd::experimental::context_function<decltype(&Obj::note), &Obj::note> n1(&o[1]);
    for(int d = 0; d < c.bound; d++)
    {
        int v = 1 + c.pick(2), k = c.pick(4); c.log("context %d (%d)", k, v);
        if(k == 0) { a0(std::move(v)); w[0] += v; } else if(k == 1) { a1(std::move(v)); w[1] += v; } else if(k == 2) { s0(std::move(v)); w[0] -= v; } else { n1(std::move(v), 7); w[1] = v * 10 + 7; }
        CHECK(o[0].v == w[0] && o[1].v == w[1], "context: objects (%d,%d), expected (%d,%d)", o[0].v, o[1].v, w[0], w[1]); c.observe(w[0] * 100 + w[1]);
    }
}
// ---- inline storage
SCENARIO(inline_storage, 4, 6)
{
    life.reset();
    {
    typedef estd::experimental::inline_function<Acc, int(int)> X; int v0 = 1 + c.pick(2);
    std::unique_ptr<X> f(new X(Acc(std::move(v0)))), g; int tf = v0, tg = 0;
    for(int d = 0; d < c.bound; d++)
    {
        int v = 1 + c.pick(2);
        switch(c.pick(4))
        {
            case 0: if(f) { c.log("f(%d)", v); int r = (*f)(std::move(v)); tf += v; CHECK(r == tf, "call: gave %d, expected %d", r, tf); } break;
            case 1: if(g) { c.log("g(%d)", v); int r = (*g)(std::move(v)); tg += v; CHECK(r == tg, "call of a copy: gave %d, expected %d", r, tg); } break;
            case 2: if(f && !g) { c.log("g copy of f"); g.reset(new X(*f)); tg = tf; } break;
            default: if(f && g) { c.log("destroy f"); f.reset(); } break;
        }
        c.observe(tf * 100 + tg); c.flush();
    }
    }
    CHECK(life.live.empty(), "lifetime: callables left"); c.flush();
}
// ---- one-shot flavours destroy the callable right after the call
SCENARIO(one_shot, 1, 1)
{
    life.reset(); int v = c.pick(3);
    typedef estd::detail::v2::function<int(int), estd::detail::impl::function_fnptr2_opt> X; typedef X::model<Acc> Mo; alignas(Mo) unsigned char b[sizeof(Mo)];
    Mo* m = new (b) Mo(Acc(10)); CHECK(life.live.size() == 1, "one shot: before the call"); X f(m); int r = f(std::move(v)); CHECK(r == 10 + v, "one shot: gave %d", r); CHECK(life.live.empty(), "one shot: callable survives its call");
    c.flush(); c.observe(v);
}
// ---- references
SCENARIO(references, 4, 6)
{
    int v[2] = {1, 2}, m[2] = {1, 2}, to = c.pick(2), to2 = 1 - to;
    estd::reference_wrapper<int> r = estd::ref(v[to]), s = estd::ref(v[to2]);
    for(int d = 0; d < c.bound; d++)
    {
        int x = 3 + c.pick(2);
        switch(c.pick(4))
        {
            case 0: c.log("write through r"); r.get() = x; m[to] = x; break;
            case 1: c.log("write through s"); (int&)s = x; m[to2] = x; break;
            case 2: c.log("r = s"); r = s; to = to2; break;
            default: c.log("s = copy of r"); { estd::reference_wrapper<int> t(r); s = t; } to2 = to; break;
        }
        CHECK(v[0] == m[0] && v[1] == m[1], "reference: wrote elsewhere"); CHECK(&r.get() == &v[to] && &s.get() == &v[to2] && r == v[to], "reference: wrong target"); c.observe(v[0] * 100 + v[1] * 10 + to * 2 + to2);
    }
}
// ---- comparison function objects and invoke
struct Pt { int v; int twice(int x) { return v * 2 + x; } };
SCENARIO(comparisons_and_invoke, 1, 1)
{
    static const int vs[] = {-2147483647 - 1, -1, 0, 1, 2147483647}; int a = c.of(vs), b = c.of(vs);
    CHECK(estd::less<int>()(a, b) == (a < b) && estd::greater<int>()(a, b) == (a > b) && estd::equal_to<int>()(a, b) == (a == b) && estd::not_equal_to<int>()(a, b) == (a != b), "compare %d %d", a, b);
    CHECK(estd::equal_to<>()(a, (long long)b) == (a == b) && estd::not_equal_to<>()((long long)a, b) == (a != b), "compare mixed %d %d", a, b);
    int p = c.pick(3); Pt o{p}; 
    CHECK(estd::invoke(&Pt::twice, o, 1) == p * 2 + 1 && estd::invoke(&Pt::twice, &o, 1) == p * 2 + 1 && estd::invoke(&Pt::twice, estd::ref(o), 1) == p * 2 + 1, "invoke method");
    CHECK(estd::invoke(&Pt::v, o) == p && estd::invoke(&Pt::v, &o) == p, "invoke"); c.observe(p);
}
