// Property C06: heap algorithms and priority queues always surface the right element.
#include <estd/string.h>
#include <estd/algorithm.h>
#include <estd/queue.h>
#include <estd/vector.h>
#include <algorithm>
#include <map>
#include <set>
#include "mc.h"
using namespace mc;

template <class Cmp, class It> static bool is_k_heap(It a, int n, int k, Cmp cmp)
{
    for(int i = 1; i < n; i++) if(cmp(a[(i - 1) / k], a[i])) return false;
    return true;
}
struct Greater { bool operator()(int a, int b) const { return a > b; } };
struct Less { bool operator()(int a, int b) const { return a < b; } };

// arrays of exactly n ints on the heap: ASan sees any access outside
struct Arr { int* p; int n; Arr(int n) : p((int*)malloc(n ? n * sizeof(int) : 1)), n(n) {} ~Arr() { free(p); } std::vector<int> v() const { return std::vector<int>(p, p + n); } std::vector<int> sorted() const { auto r = v(); std::sort(r.begin(), r.end()); return r; } };

template <class Cmp> static void algos(Ctx& c, int vals, int maxn)
{
    int n = c.pick(maxn + 1);
    Arr a(n);
    for(int i = 0; i < n; i++) a.p[i] = c.pick(vals);
    auto before = a.sorted();
    std::string was = show_seq(a.v());
    c.state(was);
    switch(c.pick(5))
    {
        case 0: case 1: case 2:
        {
            int k = 2 + 0; static const int ks[] = { 2, 3, 4 }; k = c.of(ks);
            c.log("make_heap(%s, k=%d)", was.c_str(), k);
            if(k == 2) estd::make_heap(a.p, a.p + n, Cmp()); else estd::make_heap(a.p, a.p + n, Cmp(), k);
            CHECK(a.sorted() == before, "make_heap: elements changed: %s -> %s", was.c_str(), show_seq(a.v()).c_str());
            CHECK(is_k_heap(a.p, n, k, Cmp()), "make_heap: %s -> %s is not a %d-ary heap", was.c_str(), show_seq(a.v()).c_str(), k);
            break;
        }
        case 3:
            if(n == 0 || !is_k_heap(a.p, n - 1, 2, Cmp())) return;
            c.log("push_heap(%s)", was.c_str());
            estd::push_heap(a.p, a.p + n, Cmp());
            CHECK(a.sorted() == before, "push_heap: elements changed: %s -> %s", was.c_str(), show_seq(a.v()).c_str());
            CHECK(is_k_heap(a.p, n, 2, Cmp()), "push_heap: %s -> %s is not a heap", was.c_str(), show_seq(a.v()).c_str());
            break;
        case 4:
        {
            if(n == 0 || !is_k_heap(a.p, n, 2, Cmp())) return;
            c.log("pop_heap(%s)", was.c_str());
            int top = a.p[0];
            estd::pop_heap(a.p, a.p + n, Cmp());
            CHECK(a.sorted() == before, "pop_heap: elements changed: %s -> %s", was.c_str(), show_seq(a.v()).c_str());
            CHECK(a.p[n - 1] == top, "pop_heap: %s -> %s, the top is not last", was.c_str(), show_seq(a.v()).c_str());
            CHECK(is_k_heap(a.p, n - 1, 2, Cmp()), "pop_heap: %s -> %s is not a heap", was.c_str(), show_seq(a.v()).c_str());
            break;
        }
    }
    c.observe(show_seq(a.v()));
}
static void al(Ctx& c) { algos<Less>(c, 3, c.thorough ? 9 : 7); }
static void ag(Ctx& c) { algos<Greater>(c, 4, c.thorough ? 8 : 6); }
SCENARIO_FN_SHARDED(algorithms_less, al, 1, 1, 10, 10);
SCENARIO_FN_SHARDED(algorithms_greater, ag, 1, 1, 10, 10);

// every permutation of distinct values: deeper heaps
SCENARIO_SHARDED(sort_permutations, 1, 1, 8, 9)
{
    int n = c.thorough ? 9 : 8; std::vector<int> pool, in;
    for(int i = 0; i < n; i++) pool.push_back(i);
    while(!pool.empty()) { int i = c.pick((int)pool.size()); in.push_back(pool[i]); pool.erase(pool.begin() + i); }
    Arr a(n); std::copy(in.begin(), in.end(), a.p);
    estd::make_heap(a.p, a.p + n);
    CHECK(is_k_heap(a.p, n, 2, Less()), "make_heap: %s -> %s is not a heap", show_seq(in).c_str(), show_seq(a.v()).c_str());
    for(int i = n; i > 0; i--) { estd::pop_heap(a.p, a.p + i); CHECK(a.p[i - 1] == i - 1, "pop_heap: popping %s yields %d, expected %d", show_seq(in).c_str(), a.p[i - 1], i - 1); }
    c.observe(show_seq(in)); c.state(show_seq(in));
}

struct Item
{
    int key, id;
    Item() : key(-1), id(-1) {}
    Item(int k, int i) : key(k), id(i) {}
    bool operator<(const Item& o) const { return key < o.key; }
    bool operator>(const Item& o) const { return key > o.key; }
};

template <class PQ, bool Min, class Make> static void pq_body(Ctx& c, size_t cap, int keys, Make make)
{
    PQ& q = make(); int next = 1;
    std::map<int, int> m;            // id -> key
    for(int d = 0; d < c.bound; d++)
    {
        std::string key;
        for(auto it = q.container().begin(); it != q.container().end(); ++it) { Item i = *it; key += std::to_string(i.key) + ":" + std::to_string(i.id) + ","; }
        if(c.visited(key, c.bound - d)) return;
        int op = c.pick(7);
        switch(op)
        {
            case 6: case 0: case 1: case 2:
            {
                if(m.size() == cap) return;
                int k = c.pick(keys); next = 1; while(m.count(next)) ++next;
                if(op == 0) { c.log("push(const& %d)", k); const Item i(k, next); q.push(i); }
                else if(op == 1) { c.log("push(&& %d)", k); q.push(Item(k, next)); }
                else if(op == 2) { c.log("emplace(%d)", k); q.emplace(k, next); }
                else { int first = c.pick(keys); c.log("emplace_with_notify(%d, which becomes %d)", first, k); int seen = 0; q.emplace_with_notify([&](Item& i) { seen++; CHECK(i.id == next && i.key == first, "notify: told of %d:%d, not of the new %d:%d", i.key, i.id, first, next); i.key = k; }, first, next); CHECK(seen == 1, "notify: %d times", seen); }
                m[next] = k; break;
            }
            case 3: if(m.empty()) return; { c.log("pop"); Item t = q.top(); q.pop(); CHECK(m.count(t.id) && m[t.id] == t.key, "top: element %d does not exist", t.id); m.erase(t.id); } break;
            case 4:
            {
                if(m.empty()) return;
                int pos = c.pick((int)m.size()); auto it = m.begin(); std::advance(it, pos); int id = it->first;
                c.log("erase_if(id %d)", id);
                CHECK(q.erase_if([id](const Item& i) { return i.id == id; }), "erase_if: element %d not found", id);
                m.erase(id); break;
            }
            case 5: c.log("erase_if(absent)"); CHECK(!q.erase_if([](const Item& i) { return i.id == 99; }), "erase_if: found an absent element"); break;
        }
        CHECK(q.size() == m.size() && q.empty() == m.empty(), "size: %zu, expected %zu", (size_t)q.size(), m.size());
        if(!m.empty())
        {
            int best = m.begin()->second;
            for(auto& e : m) if(Min ? e.second < best : e.second > best) best = e.second;
            Item t = q.top();
            CHECK(t.key == best, "top: key %d, expected %d", t.key, best);
        }
        std::map<int, int> got;
        for(auto it = q.container().begin(); it != q.container().end(); ++it) { Item i = *it; got[i.id] = i.key; }
        CHECK(got == m, "contents: the queue's elements are not those pushed and not yet removed");
    }
    // drain in order
    int prev = Min ? -1 : 1000;
    while(!m.empty())
    {
        Item t = q.top(); q.pop();
        CHECK(m.count(t.id), "drain: unknown element"); m.erase(t.id);
        CHECK(Min ? t.key >= prev : t.key <= prev, "drain: key %d after %d", t.key, prev);
        prev = t.key;
    }
    CHECK(q.empty(), "drain: not empty at the end");
    c.observe(c.oplog);
}
static void p1(Ctx& c) { typedef estd::layer1::priority_queue<Item, 6> Q; typedef Fixed<Q> F; F::fill(0xAA); pq_body<Q, false>(c, 6, 3, []() -> Q& { return *F::make(); }); if(!F::intact()) c.fail("memory outside the queue was written"); }
static void p2(Ctx& c) { typedef estd::layer1::priority_queue<Item, 5, estd::greater<Item>> Q; typedef Fixed<Q> F; F::fill(0xAA); pq_body<Q, true>(c, 5, 3, []() -> Q& { return *F::make(); }); if(!F::intact()) c.fail("memory outside the queue was written"); }
static bool by_key(const Item& a, const Item& b) { return a.key < b.key; }
static void p3(Ctx& c) { typedef estd::layer1::priority_queue<Item, 7, decltype(&by_key)> Q; typedef Fixed<Q> F; F::fill(0xAA); pq_body<Q, false>(c, 7, 2, []() -> Q& { return *F::make(by_key); }); if(!F::intact()) c.fail("memory outside the queue was written"); }
SCENARIO_FN_SHARDED(pq_max, p1, 6, 8, 6, 6);
SCENARIO_FN_SHARDED(pq_min, p2, 6, 8, 6, 6);
SCENARIO_FN_SHARDED(pq_function_compare, p3, 7, 9, 6, 6);

// many elements: positions and counts beyond one byte, every order of arrival listed
static int arrival(int order, int i, int n)
{
    switch(order)
    {
        case 0: return i;
        case 1: return n - i;
        case 2: return i % 2 ? i : n - i;
        case 3: return i < n / 2 ? 2 * i : 2 * (n - i);
        case 4: return 5;
        case 5: return i % 7;
        case 6: return (i * 37) % (n + 1);
        default: return i % 100 == 99 ? -i : i;
    }
}
SCENARIO(many_algorithms, 1, 1)
{
    static const int ns[] = { 10, 17, 40, 63, 64, 65, 66, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300, 513, 1000 };
    static const int ks[] = { 2, 3, 4, 5, 8, 16, 100, 127, 128, 255, 256, 300 };
    int n = c.of(ns), order = c.pick(8), k = c.of(ks);
    c.log("%d elements, order %d, arity %d", n, order, k); c.state(std::to_string(n * 100 + order));
    Arr a(n); for(int i = 0; i < n; i++) a.p[i] = arrival(order, i, n);
    auto sorted = a.sorted();
    estd::make_heap(a.p, a.p + n, Less(), k);
    CHECK(a.sorted() == sorted, "make_heap: elements changed (%d elements)", n);
    CHECK(is_k_heap(a.p, n, k, Less()), "make_heap: %d elements, arity %d: not a heap", n, k);
    if(k == 2)
    {
        for(int i = n; i > 0; i--) { estd::pop_heap(a.p, a.p + i); CHECK(a.p[i - 1] == sorted[i - 1], "pop_heap: element %d of %d is %d, expected %d", i, n, a.p[i - 1], sorted[i - 1]); }
        for(int i = 0; i < n; i++) a.p[i] = arrival(order, i, n);
        for(int i = 1; i <= n; i++) { estd::push_heap(a.p, a.p + i); CHECK(is_k_heap(a.p, i, 2, Less()), "push_heap: element %d of %d", i, n); }
        CHECK(a.sorted() == sorted, "push_heap: elements changed (%d elements)", n);
    }
    c.observe(show_seq(a.v()));
}
template <class Q, bool Min> static void pq_many(Ctx& c, int cap)
{
    typedef Fixed<Q> F; F::fill(0xAA); Q& q = *F::make();
    int n = cap - c.pick(3), order = c.pick(8), every = c.pick(4);      // after every so many pushes, one pop
    c.log("%d elements, order %d, a pop every %d", n, order, every);
    const std::string id = std::to_string(n) + "/" + std::to_string(order) + std::to_string(every); c.state(id);
    std::multiset<int> m;
    auto top = [&] { return Min ? *m.begin() : *--m.end(); };
    for(int i = 0; i < n; i++)
    {
        int k = arrival(order, i, n);
        q.push(Item(k, i)); m.insert(k);
        if(every && i % (every + 1) == every) { Item t = q.top(); CHECK(t.key == top(), "top: key %d, expected %d", t.key, top()); q.pop(); m.erase(m.find(t.key)); }
        CHECK(q.size() == m.size(), "size: %zu, expected %zu", (size_t)q.size(), m.size());
        if(!m.empty()) { Item t = q.top(); CHECK(t.key == top(), "top: key %d, expected %d", t.key, top()); }
    }
    while(!m.empty()) { Item t = q.top(); CHECK(t.key == top(), "drain: key %d, expected %d", t.key, top()); q.pop(); m.erase(m.find(t.key)); CHECK(q.size() == m.size() && q.empty() == m.empty(), "drain: size"); }
    CHECK(F::intact(), "memory outside the queue was written");
    c.observe(id);
}
static void pm1(Ctx& c) { pq_many<estd::layer1::priority_queue<Item, 300>, false>(c, 300); }
static void pm2(Ctx& c) { pq_many<estd::layer1::priority_queue<Item, 255, estd::greater<Item>>, true>(c, 255); }
static void pm3(Ctx& c) { pq_many<estd::layer1::priority_queue<Item, 130>, false>(c, 130); }
SCENARIO_FN(pq_many_300, pm1, 1, 1);
SCENARIO_FN(pq_many_255, pm2, 1, 1);
SCENARIO_FN(pq_many_130, pm3, 1, 1);

// one queue assigned from another takes over its elements and leaves a usable queue
SCENARIO(pq_assign, 5, 7)
{
    typedef estd::layer1::priority_queue<Item, 4> Q;
    Q q[2]; std::multiset<int> m[2];
    for(int d = 0; d < c.bound; d++)
    {
        std::string key;
        for(int i = 0; i < 2; i++) { for(auto it = q[i].container().begin(); it != q[i].container().end(); ++it) { Item x = *it; key += std::to_string(x.key) + ","; } key += "/"; }
        if(c.visited(key, c.bound - d)) return;
        int w = c.pick(2), o = 1 - w;
        switch(c.pick(3))
        {
            case 0: { if(m[w].size() == 4) return; int k = c.pick(3); c.log("%d.push(%d)", w, k); q[w].push(Item(k, 1)); m[w].insert(k); break; }
            case 1: if(m[w].empty()) return; c.log("%d.pop", w); q[w].pop(); m[w].erase(--m[w].end()); break;
            case 2: c.log("%d = %d", w, o); q[w] = (const Q&)q[o]; m[w] = m[o]; break;
        }
        for(int i = 0; i < 2; i++)
        {
            CHECK(q[i].size() == m[i].size() && q[i].empty() == m[i].empty(), "size: queue %d", i);
            if(!m[i].empty()) { Item t = q[i].top(); CHECK(t.key == *--m[i].end(), "top: queue %d gives %d", i, t.key); }
            std::multiset<int> got; for(auto it = q[i].container().begin(); it != q[i].container().end(); ++it) { Item x = *it; got.insert(x.key); }
            CHECK(got == m[i], "contents: queue %d", i);
        }
        c.observe(key);
    }
}
