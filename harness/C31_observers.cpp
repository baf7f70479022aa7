// Property C31: a notification reaches every observer that takes it, once, in order.
#include <estd/exp/observer.h>
#include <sstream>
#include "mc.h"
using namespace mc;
namespace ex = estd::experimental;

struct Tick { int v; };
struct Name { std::string v; };
struct Other { int v; };
struct Ctxt { std::vector<int> touched; };
struct Call { int who; std::string what; const void* ctx; };
static std::vector<Call> calls;
template <class N> static std::string text(const char* kind, const N& n) { std::ostringstream s; s << kind << n.v; return s.str(); }

// what an observer takes: bit 0 ticks, bit 1 names, bit 2 ticks together with a context, bit 3 names together with a context
static const int NK = 6;
static const unsigned takes[NK] = { 0, 1, 2, 3, 4, 9 };
template <int K> struct Obs;
template <> struct Obs<0> { int id = -1; int seen = 0; };
template <> struct Obs<1> { int id = -1; int seen = 0; void on_notify(const Tick& t) { seen++; calls.push_back({ id, text("t", t), nullptr }); } };
template <> struct Obs<2> { int id = -1; int seen = 0; void on_notify(const Name& t) { seen++; calls.push_back({ id, text("n", t), nullptr }); } };
template <> struct Obs<3> { int id = -1; int seen = 0; void on_notify(const Tick& t) { seen++; calls.push_back({ id, text("t", t), nullptr }); } void on_notify(const Name& t) { seen++; calls.push_back({ id, text("n", t), nullptr }); } };
template <> struct Obs<4> { int id = -1; int seen = 0; void on_notify(const Tick& t, Ctxt& x) { seen++; x.touched.push_back(id); calls.push_back({ id, text("t", t), &x }); } };
template <> struct Obs<5> { int id = -1; int seen = 0; void on_notify(const Tick& t) { seen++; calls.push_back({ id, text("t", t), nullptr }); } void on_notify(const Name& t, Ctxt& x) { seen++; x.touched.push_back(id); calls.push_back({ id, text("n", t), &x }); } };
// without any state
template <int K, int I> struct Stat;
template <int I> struct Stat<0, I> {};
template <int I> struct Stat<1, I> { static void on_notify(const Tick& t) { calls.push_back({ I, text("t", t), nullptr }); } };
template <int I> struct Stat<2, I> { static void on_notify(const Name& t) { calls.push_back({ I, text("n", t), nullptr }); } };
template <int I> struct Stat<3, I> { static void on_notify(const Tick& t) { calls.push_back({ I, text("t", t), nullptr }); } static void on_notify(const Name& t) { calls.push_back({ I, text("n", t), nullptr }); } };
template <int I> struct Stat<4, I> { static void on_notify(const Tick& t, Ctxt& x) { x.touched.push_back(I); calls.push_back({ I, text("t", t), &x }); } };
template <int I> struct Stat<5, I> { static void on_notify(const Tick& t) { calls.push_back({ I, text("t", t), nullptr }); } static void on_notify(const Name& t, Ctxt& x) { x.touched.push_back(I); calls.push_back({ I, text("n", t), &x }); } };

static std::string show_calls(const std::vector<Call>& v) { std::string s = "["; for(auto& e : v) s += (s.size() > 1 ? " " : "") + std::to_string(e.who) + ":" + e.what + (e.ctx ? "+ctx" : ""); return s + "]"; }

// one notification, checked
template <class S> static void notify(Ctx& c, S& s, const std::vector<int>& kinds)
{
    int which = c.pick(3), val = c.pick(2); bool ctx = c.flip();
    Ctxt x;
    std::vector<Call> want; std::vector<int> touched;
    for(size_t i = 0; i < kinds.size(); i++)
    {
        unsigned t = takes[kinds[i]];
        if(which == 2) continue;
        bool plain = t >> which & 1, with = t >> (2 + which) & 1;
        std::string w = which == 0 ? text("t", Tick{ val }) : text("n", Name{ val ? "b" : "a" });
        if(plain) want.push_back({ (int)i, w, nullptr });
        else if(with && ctx) { want.push_back({ (int)i, w, &x }); touched.push_back((int)i); }
    }
    calls.clear();
    auto go = [&](const auto& n) { if(ctx) s.notify(n, x); else s.notify(n); };
    switch(which) { case 0: go(Tick{ val }); break; case 1: go(Name{ val ? "b" : "a" }); break; case 2: go(Other{ val }); break; }
    c.log("notify %s%d%s", which == 0 ? "tick" : which == 1 ? "name" : "other", val, ctx ? " with context" : "");
    bool ok = calls.size() == want.size();
    for(size_t i = 0; ok && i < want.size(); i++) ok = calls[i].who == want[i].who && calls[i].what == want[i].what && calls[i].ctx == want[i].ctx;
    CHECK(ok, "reached: %s, expected %s", show_calls(calls).c_str(), show_calls(want).c_str());
    CHECK(x.touched == touched, "context: touched by %zu observers, expected %zu", x.touched.size(), touched.size());
    c.observe(calls.size() * 8 + which);
}

template <int A, int B, int C> static void combo(Ctx& c)
{
    std::vector<int> kinds = { A, B, C };
    int how = c.pick(6);
    c.log("observers of kinds %d %d %d, %s", A, B, C, how == 0 ? "by reference" : how == 1 ? "held" : how == 2 ? "made in place" : how == 3 ? "stateless" : how == 4 ? "mixed" : "behind a proxy");
    int rounds = c.thorough ? 3 : 2;
    Obs<A> a; Obs<B> b; Obs<C> d; a.id = 0; b.id = 1; d.id = 2;
    switch(how)
    {
        case 0: { auto s = ex::layer0::make_subject(a, b, d); int n = 0; for(int i = 0; i < rounds; i++) { notify(c, s, kinds); n += (int)calls.size(); } CHECK(a.seen + b.seen + d.seen == n, "state: the observers referred to saw %d, expected %d", a.seen + b.seen + d.seen, n); break; }
        case 1: { ex::layer0::subject<Obs<A>, Obs<B>, Obs<C>> s(std::move(a), std::move(b), std::move(d)); for(int i = 0; i < rounds; i++) notify(c, s, kinds); break; }
        case 2: { ex::layer0::subject<Obs<A>> s(Obs<A>{ 0 }); for(int i = 0; i < rounds; i++) notify(c, s, { A }); break; }
        case 3: { ex::internal::stateless_subject<Stat<A, 0>, Stat<B, 1>, Stat<C, 2>> s; for(int i = 0; i < rounds; i++) notify(c, s, kinds); break; }
        case 4: { ex::layer0::subject<Obs<A>&, Obs<B>, Obs<C>&> s(a, std::move(b), d); for(int i = 0; i < rounds; i++) notify(c, s, kinds); break; }
        case 5:
        {
            auto s = ex::layer0::make_subject(a, b, d);
            ex::observer_proxy<decltype(s), Tick, Name> p(s);
            auto outer = ex::layer0::make_subject(p);
            // the proxy passes on without context
            for(int i = 0; i < rounds; i++)
            {
                int which = c.pick(2);
                std::vector<Call> want;
                for(size_t k = 0; k < 3; k++) if(takes[kinds[k]] >> which & 1) want.push_back({ (int)k, which ? "na" : "t5", nullptr });
                calls.clear();
                if(which) outer.notify(Name{ "a" }); else outer.notify(Tick{ 5 });
                CHECK(show_calls(calls) == show_calls(want), "reached: through a proxy %s, expected %s", show_calls(calls).c_str(), show_calls(want).c_str());
                c.observe(calls.size());
            }
            break;
        }
    }
    c.state(std::to_string(A * 36 + B * 6 + C));
}
template <int A> static void combo1(Ctx& c) { switch(c.pick(4)) { case 0: combo<A, 1, 4>(c); break; case 1: combo<A, 5, 0>(c); break; case 2: combo<A, 3, 2>(c); break; case 3: combo<A, 4, 5>(c); break; } }
SCENARIO(notifications, 1, 1) { switch(c.pick(NK)) { case 0: combo1<0>(c); break; case 1: combo1<1>(c); break; case 2: combo1<2>(c); break; case 3: combo1<3>(c); break; case 4: combo1<4>(c); break; case 5: combo1<5>(c); break; } }
