// Property C05: deque / queue / stack keep their elements in order through any history.
// ALSO: DEVICE
#include <estd/string.h>
#include <estd/queue.h>
#include <estd/stack.h>
#include <deque>
#include "mc.h"
using namespace mc;

struct Rec { int v; int pad[2]; Rec() : v(-1) {} Rec(int x) : v(x) { pad[0] = x + 1; pad[1] = x + 2; } };
static int val(const Rec& r) { return r.pad[0] == r.v + 1 && r.pad[1] == r.v + 2 ? r.v : -1000; }
static int val(int v) { return v; }

template <class Q> static void agree(Ctx& c, Q& q, const std::deque<int>& m, size_t cap)
{
    CHECK(q.size() == m.size(), "size: %zu, expected %zu", (size_t)q.size(), m.size());
    CHECK(q.empty() == m.empty(), "empty: %d with %zu elements", (int)q.empty(), m.size());
    if(!m.empty())
    {
        const Q& cq = q;
        CHECK(val(q.front()) == m.front(), "front: %d, expected %d", val(q.front()), m.front());
        CHECK(val(q.back()) == m.back(), "back: %d, expected %d", val(q.back()), m.back());
        CHECK(val(cq.front()) == m.front(), "front: const access");
    }
    c.observe(show_seq(m));
}

template <class T, size_t N> static void deque_body(Ctx& c)
{
    typedef estd::layer1::deque<T, N> D; typedef Fixed<D, 0> F0; typedef Fixed<D, 1> F1;
    F0::fill(0xAA); F1::fill(0xAA);
    D* q = F0::make(); std::deque<int> m; int moved = 0, next = 1;
    CHECK(q->max_size() == N, "max_size:");
    for(int d = 0; d < c.bound; d++)
    {
        int off = m.empty() ? 0 : (int)((char*)&q->front() - (char*)q);
        if(c.visited(show_seq(m) + "/" + std::to_string(next) + "/" + std::to_string(off) + "/" + std::to_string(moved), c.bound - d)) return;
        int op = c.pick(8);
        bool push = op < 5;
        if(push && m.size() == N) return;
        if((op == 5 || op == 6) && m.empty()) return;
        switch(op)
        {
            case 0: { c.log("push_back(%d)", next); const T e(next); CHECK(q->push_back(e), "push_back: refused"); m.push_back(next); break; }
            case 1: c.log("push_back(&&%d)", next); CHECK(q->push_back(T(next)), "push_back: refused"); m.push_back(next); break;
            case 2: { c.log("push_front(%d)", next); const T e(next); CHECK(q->push_front(e), "push_front: refused"); m.push_front(next); break; }
            case 3: { c.log("emplace_back(%d)", next); auto& r = q->emplace_back(next); CHECK(val(r) == next, "emplace_back: reference"); m.push_back(next); break; }
            case 4: { c.log("emplace_front(%d)", next); auto& r = q->emplace_front(next); CHECK(val(r) == next, "emplace_front: reference"); m.push_front(next); break; }
            case 5: c.log("pop_back"); CHECK(q->pop_back(), "pop_back: refused"); m.pop_back(); break;
            case 6: c.log("pop_front"); CHECK(q->pop_front(), "pop_front: refused"); m.pop_front(); break;
            case 7: { if(moved) return; moved = 1; c.log("move construct"); D* n = F1::make(std::move(*q)); memset((void*)q, 0xEE, sizeof(D)); q = n; break; }
        }
        if(push) next = next % 3 + 1;
        agree(c, *q, m, N);
        if(m.size() < N)
        {
            size_t i = 0;
            for(auto it = q->begin(); it != q->end(); ++it, ++i) { CHECK(i < m.size(), "iteration: too many elements"); CHECK(val(*it) == m[i], "iteration: position %zu is %d, expected %d", i, val(*it), m[i]); }
            CHECK(i == m.size(), "iteration: %zu of %zu", i, m.size());
        }
    }
    CHECK(F0::intact() && F1::intact(), "memory outside the deque was written");
}
static void d1(Ctx& c) { deque_body<int, 1>(c); }
static void d2(Ctx& c) { deque_body<int, 2>(c); }
static void d3(Ctx& c) { deque_body<Rec, 3>(c); }
static void d4(Ctx& c) { deque_body<int, 4>(c); }
SCENARIO_FN(deque_1, d1, 12, 14);
SCENARIO_FN(deque_2, d2, 12, 14);
SCENARIO_FN(deque_3_struct, d3, 11, 14);
SCENARIO_FN(deque_4, d4, 10, 12);

template <class T, size_t N> static void queue_body(Ctx& c)
{
    typedef estd::layer1::queue<T, N> Q; typedef Fixed<Q, 4> F; typedef Fixed<Q, 5> F1; F::fill(0xAA); F1::fill(0xAA);
    Q* q = F::make_default(); std::deque<int> m; int next = 1, moved = 0;
    for(int d = 0; d < c.bound; d++)
    {
        int off = m.empty() ? 0 : (int)((char*)&q->front() - (char*)q);
        if(c.visited(show_seq(m) + "/" + std::to_string(next) + "/" + std::to_string(off) + "/" + std::to_string(moved), c.bound - d)) return;
        int op = c.pick(5);
        if(op < 3 && m.size() == N) return;
        if(op == 3 && m.empty()) return;
        switch(op)
        {
            case 0: { c.log("push(%d)", next); const T e(next); CHECK(q->push(e), "push: refused"); m.push_back(next); break; }
            case 1: { c.log("push(&&%d)", next); CHECK(q->push(T(next)), "push: refused"); m.push_back(next); break; }
            case 2: { c.log("emplace(%d)", next); CHECK(val(q->emplace(next)) == next, "emplace: reference"); m.push_back(next); break; }
            case 3: c.log("pop"); CHECK(q->pop(), "pop: refused"); m.pop_front(); break;
            case 4: { if(moved) return; moved = 1; c.log("move construct"); Q* n = F1::make(std::move(*q)); memset((void*)q, 0xEE, sizeof(Q)); q = n; break; }
        }
        if(op < 3) next = next % 3 + 1;
        agree(c, *q, m, N);
    }
    CHECK(F::intact() && F1::intact(), "memory outside the queue was written");
}
static void q1(Ctx& c) { queue_body<int, 3>(c); }
static void q2(Ctx& c) { queue_body<Rec, 4>(c); }
SCENARIO_FN(queue_3, q1, 12, 16);
SCENARIO_FN(queue_4_struct, q2, 12, 16);

template <class T, size_t N> static void stack_body(Ctx& c)
{
    typedef estd::layer1::stack<T, N> S; typedef Fixed<S, 6> F; F::fill(0xAA);
    S* s = F::make(); std::deque<int> m; int next = 1;
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(show_seq(m) + "/" + std::to_string(next), c.bound - d)) return;
        int op = c.pick(3);
        if(op < 2 && m.size() == N) return;
        if(op == 2 && m.empty()) return;
        switch(op)
        {
            case 0: { c.log("push(%d)", next); const T e(next); s->push(e); m.push_back(next); break; }
            case 1: { c.log("push(&&%d)", next); s->push(T(next)); m.push_back(next); break; }
            case 2: c.log("pop"); s->pop(); m.pop_back(); break;
        }
        if(op < 2) next = next % 3 + 1;
        CHECK(s->size() == m.size() && s->empty() == m.empty(), "stack size: %zu, expected %zu", (size_t)s->size(), m.size());
        if(!m.empty()) { T t = s->top(); CHECK(val(t) == m.back(), "top: %d, expected %d", val(t), m.back()); }
        size_t i = 0;
        for(auto it = s->begin(); it != s->end(); ++it, ++i) { CHECK(i < m.size(), "stack iteration"); T t = *it; CHECK(val(t) == m[i], "stack iteration: position %zu", i); }
        CHECK(i == m.size(), "stack iteration: %zu of %zu", i, m.size());
        c.observe(show_seq(m));
    }
    CHECK(F::intact(), "memory outside the stack was written");
}
static void s1(Ctx& c) { stack_body<int, 4>(c); }
static void s2(Ctx& c) { stack_body<Rec, 3>(c); }
SCENARIO_FN(stack_4, s1, 12, 16);
SCENARIO_FN(stack_3_struct, s2, 12, 16);

// more than 255 elements, several times round the ring
SCENARIO(ring_300, 2, 3)
{
    typedef estd::layer1::deque<short, 300> D; typedef Fixed<D, 7> F; F::fill(0xAA);
    D* q = F::make(); std::deque<int> m; int next = 0;
    static const int pre[] = { 0, 255, 256, 299, 450 };
    int p = c.of(pre);
    for(int i = 0; i < p; i++) { q->push_back((short)i); q->pop_front(); }
    for(int d = 0; d < c.bound + 1; d++)
    {
        static const int cnt[] = { 1, 44, 255, 256, 300 };
        int n = c.of(cnt); bool push = c.flip(), front = c.flip();
        if(push ? m.size() + n > 300 : (int)m.size() < n) return;
        c.log("%s %s x%d", push ? "push" : "pop", front ? "front" : "back", n);
        for(int i = 0; i < n; i++)
        {
            if(push) { ++next; if(front) { q->push_front((short)next); m.push_front(next); } else { q->push_back((short)next); m.push_back(next); } }
            else if(front) { q->pop_front(); m.pop_front(); } else { q->pop_back(); m.pop_back(); }
        }
        agree(c, *q, m, 300);
        c.state(std::to_string(p) + show_seq(m));
        if(m.size() < 300) { size_t i = 0; for(auto it = q->begin(); it != q->end(); ++it, ++i) CHECK(i < m.size() && *it == m[i], "iteration: position %zu", i); CHECK(i == m.size(), "iteration: count"); }
    }
    CHECK(F::intact(), "memory outside the deque was written");
}

// recorded findings -------------------------------------------------------
SCENARIO(full_iteration, 1, 1)
{
    estd::layer1::deque<int, 3> q; q.push_back(1); q.push_back(2); q.push_back(3);
    c.log("fill a 3-element deque, iterate"); c.state("full");
    int n = 0; for(auto it = q.begin(); it != q.end(); ++it) ++n;
    CHECK(n == 3, "full iteration: %d of 3 elements visited", n);
}
SCENARIO(nontrivial_elements, 1, 1)
{
    { estd::layer1::deque<Tracked, 3> q; c.log("push_back(&&), pop_front, destroy"); q.push_back(Tracked(1)); q.pop_front(); }
    c.state("nt");
}
