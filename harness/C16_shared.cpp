// Property C16: a shared object lives exactly as long as its references.
#include <estd/memory.h>
#include <estd/internal/linked_ref.h>
#include "mc.h"
using namespace mc;

typedef TrackedT<1> A;
struct Del { int* n; void operator()(A* p) const { ++*n; p->~A(); } };
typedef estd::layer3::shared_ptr<A> Ref;

// two masters (own control block and, for the embedded kind, storage) and up to three references
template <class K> struct Embedded
{
    typedef estd::layer1::shared_ptr<A> X;
    static X* make(void* p, A*, int*) { return new (p) X; }
    static bool activate(X& x, int v) { x.construct(v); return true; }
    static constexpr bool revive = true, deleter = false;
};
struct EmbeddedDel
{
    typedef estd::layer1::shared_ptr<A, Del> X;
    static X* make(void* p, A*, int* n) { return new (p) X(Del{n}); }
    static constexpr bool revive = true, deleter = true;
};
struct EmbeddedPlain
{
    typedef estd::layer1::shared_ptr<A> X;
    static X* make(void* p, A*, int*) { return new (p) X; }
    static constexpr bool revive = true, deleter = false;
};
struct External
{
    typedef estd::layer2::shared_ptr<A> X;
    static X* make(void* p, A* o, int*) { return new (p) X(o); }
    static constexpr bool revive = false, deleter = false;
};
struct ExternalDel
{
    typedef estd::layer2::shared_ptr<A, Del> X;
    static X* make(void* p, A* o, int* n) { return new (p) X(o, Del{n}); }
    static constexpr bool revive = false, deleter = true;
};
template <class X, bool R> struct Construct { static void go(X& x, int v) { x.construct(v); } };
template <class X> struct Construct<X, false> { static void go(X&, int) {} };

template <class K> static void shared(Ctx& c)
{
    typedef typename K::X X; enum { NR = 3 };
    life.reset(); int deleted[2] = {0, 0};
    alignas(16) static unsigned char obj[2][sizeof(A)], mst[2][sizeof(X)], rf[NR][sizeof(Ref)];
    memset(mst, 0xA5, sizeof mst); memset(rf, 0xA5, sizeof rf);
    X* m[2]; bool active[2], born[2]; int val[2], born_n[2] = {0, 0}; int to[NR]; Ref* r[NR];
    for(int i = 0; i < NR; i++) { to[i] = -2; r[i] = nullptr; }       // -2: no reference object, -1: empty
    for(int i = 0; i < 2; i++)
    {
        if(!K::revive) new (obj[i]) A(10 + i);
        m[i] = K::make(mst[i], (A*)obj[i], &deleted[i]); active[i] = born[i] = !K::revive; val[i] = 10 + i; born_n[i] = born[i];
    }
    auto holders = [&](int o) { int n = active[o]; for(int i = 0; i < NR; i++) n += to[i] == o; return n; };
    auto drop = [&](int o) { if(o >= 0 && holders(o) == 0) born[o] = false; };
    for(int d = 0; ; d++)
    {
        std::string key;
        for(int o = 0; o < 2; o++)
        {
            int n = holders(o);
            CHECK(m[o]->use_count() == (active[o] ? n : 0), "count: master %d says %d, expected %d", o, m[o]->use_count(), active[o] ? n : 0);
            if(active[o]) CHECK(m[o]->get()->v == val[o] && (*m[o])->v == val[o], "value: master %d", o);
            if(K::deleter) CHECK(deleted[o] == born_n[o] - born[o], "deleter: object %d deleted %d times, expected %d", o, deleted[o], born_n[o] - born[o]);
            key += (active[o] ? "M" : "m") + std::to_string(born[o] ? val[o] : 0);
        }
        CHECK((int)life.live.size() == born[0] + born[1], "lifetime: %zu objects alive, expected %d", life.live.size(), born[0] + born[1]);
        for(int i = 0; i < NR; i++)
        {
            key += "," + std::to_string(to[i]);
            if(to[i] == -2) continue;
            int n = to[i] < 0 ? 0 : holders(to[i]);
            CHECK(r[i]->use_count() == n, "count: reference %d says %d, expected %d", i, r[i]->use_count(), n);
            if(to[i] >= 0) { CHECK((**r[i]).v == val[to[i]] && (*r[i])->v == val[to[i]], "value: reference %d gives %d", i, (**r[i]).v);
                if(active[to[i]]) { bool e = estd::operator==(*r[i], *m[to[i]]), n2 = estd::operator==(*r[i], *m[1 - to[i]]); CHECK(e && !n2, "equality: reference %d and masters", i); } }
        }
        for(int i = 0; i < NR; i++) for(int j = 0; j < NR; j++) if(to[i] >= 0 && to[j] >= 0) { bool x = r[i]->owner_before(*r[j]), y = r[j]->owner_before(*r[i]); CHECK(to[i] == to[j] ? !x && !y : x != y, "owner: references %d and %d of %s object are before one another %d and %d", i, j, to[i] == to[j] ? "one" : "another", x, y); }
        c.flush(); c.observe(key);
        if(d == c.bound) break;
        if(c.visited(key, c.bound - d)) break;
        int op = c.pick(9), i = c.pick(NR), j, o;
        switch(op)
        {
            case 0: o = c.pick(2); if(to[i] == -2) { c.log("reference %d from master %d", i, o); r[i] = new (rf[i]) Ref(*m[o]); to[i] = active[o] ? o : -1; } break;
            case 1: j = c.pick(NR); if(to[i] == -2 && to[j] != -2) { c.log("reference %d from reference %d", i, j); r[i] = new (rf[i]) Ref(*r[j]); to[i] = to[j]; } break;
            case 2: j = c.pick(NR); if(to[i] == -2 && to[j] != -2) { c.log("reference %d moved from %d", i, j); r[i] = new (rf[i]) Ref(std::move(*r[j])); to[i] = to[j]; to[j] = -1; } break;
            case 3: if(to[i] != -2) { c.log("destroy reference %d", i); r[i]->~Ref(); o = to[i]; to[i] = -2; drop(o); } break;
            case 4: if(to[i] != -2) { c.log("reset reference %d", i); r[i]->reset(); o = to[i]; to[i] = -1; drop(o); } break;
            case 5: j = c.pick(NR); if(to[i] != -2 && to[j] != -2) { c.log("reference %d = reference %d", i, j); *r[i] = *r[j]; o = to[i]; to[i] = to[j]; drop(o); } break;
            case 6: j = c.pick(2); if(to[i] != -2) { c.log("reference %d = master %d", i, j); *r[i] = *m[j]; o = to[i]; to[i] = active[j] ? j : -1; drop(o); } break;
            case 7: if(i == 2) { j = c.pick(2); if(born[j] && to[0] >= -1 && to[1] >= -1) { c.log("swap"); r[0]->swap(*r[1]); std::swap(to[0], to[1]); } }
                    else if(K::revive && !born[i]) { int v = 20 + c.pick(2); c.log("construct %d = %d", i, v); Construct<X, K::revive>::go(*m[i], v); active[i] = born[i] = true; born_n[i]++; val[i] = v; } break;
            default: if(i < 2 && active[i]) { c.log("reset master %d", i); m[i]->reset(); active[i] = false; drop(i); } break;
        }
        c.flush();
    }
    for(int i = 0; i < NR; i++) if(to[i] != -2) r[i]->~Ref();
    for(int o = 0; o < 2; o++) m[o]->~X();
    CHECK(life.live.empty(), "lifetime: %zu objects left after every reference went", life.live.size());
    if(K::deleter) for(int o = 0; o < 2; o++) CHECK(deleted[o] == born_n[o], "deleter: object %d deleted %d times in the end, expected %d", o, deleted[o], born_n[o]);
    c.flush();
}
SCENARIO_FN_SHARDED(embedded, shared<EmbeddedPlain>, 6, 9, 4, 8);
SCENARIO_FN_SHARDED(embedded_deleter, shared<EmbeddedDel>, 6, 9, 4, 8);
SCENARIO_FN_SHARDED(external, shared<External>, 6, 9, 4, 8);
SCENARIO_FN_SHARDED(external_deleter, shared<ExternalDel>, 6, 9, 4, 8);

// ---- references linked in a ring instead of counted
static int destructs[8]; 
struct RingTraits { static bool null(int v) { return v == -1; } static int null() { return -1; } static void destruct(int v) { destructs[v]++; } };
SCENARIO(linked, 7, 10)
{
    typedef estd::internal::linked_ref<int, RingTraits> L; enum { N = 4 };
    alignas(16) static unsigned char mem[N][sizeof(L)]; memset(mem, 0xA5, sizeof mem); memset(destructs, 0, sizeof destructs);
    L* r[N] = {}; int of[N], order[8] = {}; int made = 0, gone = 0; (void)order;      // of: group, -1 unlinked (moved from)
    auto size = [&](int g) { int n = 0; for(int i = 0; i < N; i++) n += r[i] && of[i] == g; return n; };
    for(int d = 0; ; d++)
    {
        // canonical: groups renamed in order of first appearance
        std::string key; std::vector<int> names; 
        for(int i = 0; i < N; i++)
        {
            if(!r[i]) { key += "."; continue; }
            if(of[i] < 0) { key += "x"; CHECK(r[i]->next() == nullptr, "ring: a moved-from reference is still linked"); continue; }
            int n = r[i]->count_shared(); CHECK(n == size(of[i]), "count: reference %d says %d, expected %d", i, n, size(of[i]));
            size_t k = 0; while(k < names.size() && names[k] != of[i]) k++; if(k == names.size()) names.push_back(of[i]); key += (char)('a' + k);
            int nx = -1; for(int j = 0; j < N; j++) if(r[j] && r[i]->next() == r[j]) nx = j; CHECK(nx >= 0 && of[nx] == of[i], "ring: reference %d is followed by something else", i); key += std::to_string(nx);
        }
        for(int g = 0; g < made; g++) { int e = size(g) == 0; CHECK(destructs[g] == e, "destruct: value %d destructed %d times, expected %d", g, destructs[g], e); }
        gone = 0; for(int g = 0; g < made; g++) gone += destructs[g];
        c.observe(key);
        if(d == c.bound) break;
        if(c.visited(key + "/" + std::to_string(made), c.bound - d)) break;
        int i = c.pick(N), j;
        switch(c.pick(4))
        {
            case 0: if(!r[i] && made < 3) { c.log("new %d value %d", i, made); r[i] = new (mem[i]) L(made); of[i] = made++; } break;
            case 1: j = c.pick(N); if(!r[i] && r[j] && of[j] >= 0) { c.log("%d attaches to %d", i, j); r[i] = new (mem[i]) L((const L&)*r[j]); of[i] = of[j]; } break;
            case 2: j = c.pick(N); if(!r[i] && r[j] && of[j] >= 0) { c.log("%d moved from %d", i, j); r[i] = new (mem[i]) L(std::move(*r[j])); of[i] = of[j]; of[j] = -1; } break;
            default: if(r[i]) { c.log("destroy %d", i); r[i]->~L(); r[i] = nullptr; memset(mem[i], 0x5A, sizeof mem[i]); } break;
        }
    }
    for(int i = 0; i < N; i++) if(r[i]) { r[i]->~L(); r[i] = nullptr; }
    for(int g = 0; g < made; g++) CHECK(destructs[g] == 1, "destruct: value %d destructed %d times in the end", g, destructs[g]);
}

// many references to one object, let go in several orders
template <class K> static void many(Ctx& c)
{
    typedef typename K::X X; enum { N = 1000 }; life.reset(); int deleted = 0;
    alignas(16) static unsigned char obj[sizeof(A)], mst[sizeof(X)], rf[N][sizeof(Ref)]; static Ref* r[N];
    static const int counts[] = { 1, 127, 128, 254, 255, 256, 257, 300, 511, 512, 1000 };
    int n = c.of(counts), order = c.pick(3); bool master_first = c.flip(), chained = c.flip(), by_reset = c.flip();
    if(!K::revive) new (obj) A(10);
    X* m = K::make(mst, (A*)obj, &deleted); if(K::revive) Construct<X, K::revive>::go(*m, 10);
    c.log("%d references taken from %s", n, chained ? "each other" : "the master");
    for(int i = 0; i < n; i++)
    {
        r[i] = chained && i ? new (rf[i]) Ref(*r[i - 1]) : new (rf[i]) Ref(*m);
        CHECK(m->use_count() == i + 2, "count: %d after taking %d references", m->use_count(), i + 1);
    }
    int left = n + 1;
    if(master_first) { m->reset(); left--; CHECK(r[0]->use_count() == left, "count: %d after the master let go, expected %d", r[0]->use_count(), left); }
    for(int k = 0; k < n; k++)
    {
        int i = order == 0 ? k : order == 1 ? n - 1 - k : k % 2 ? n - 1 - k / 2 : k / 2;
        CHECK(life.live.size() == 1, "lifetime: gone with %d holders left of %d", left, n + 1);
        CHECK((**r[i]).v == 10 && r[i]->use_count() == left, "count: %d with %d holders", r[i]->use_count(), left);
        if(by_reset) { r[i]->reset(); CHECK(r[i]->use_count() == 0, "count: of a reset reference"); }
        r[i]->~Ref(); left--;
    }
    CHECK(life.live.size() == (size_t)left, "lifetime: %zu objects alive with %d holders left", life.live.size(), left);
    if(!master_first) { CHECK(m->use_count() == 1, "count: master alone says %d", m->use_count()); m->reset(); }
    CHECK(life.live.empty(), "lifetime: object left after every reference went");
    if(K::deleter) CHECK(deleted == 1, "deleter: called %d times", deleted);
    m->~X(); c.flush(); c.state(std::to_string(n)); c.observe(std::to_string(deleted));
}
SCENARIO_FN(many_embedded, many<EmbeddedPlain>, 1, 1);
SCENARIO_FN(many_embedded_deleter, many<EmbeddedDel>, 1, 1);
SCENARIO_FN(many_external, many<External>, 1, 1);
SCENARIO_FN(many_external_deleter, many<ExternalDel>, 1, 1);
