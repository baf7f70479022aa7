// Property C04: vectors behave like the sequence their history denotes.
// ALSO: DEVICE
#include <estd/string.h>
#include <estd/vector.h>
#include <vector>
#include "mc.h"
#include "heap_allocator.h"
using namespace mc;

struct Pair { int v; const char* tag; unsigned char pad; };
static Pair mk(Pair*, int v) { return Pair{v, "t", (unsigned char)(v + 1)}; }
static int mk(int*, int v) { return v * 0x01010101; }
static unsigned char mk(unsigned char*, int v) { return (unsigned char)(v + 3); }
static short mk(short*, int v) { return (short)(v * 0x101); }
static bool same(const Pair& e, int v) { return e.v == v && e.tag && e.tag[0] == 't' && e.pad == (unsigned char)(v + 1); }
static bool same(int e, int v) { return e == v * 0x01010101; }
static bool same(unsigned char e, int v) { return e == (unsigned char)(v + 3); }
static bool same(short e, int v) { return e == (short)(v * 0x101); }

template <class E, class V> static void agree(Ctx& c, V& v, const std::vector<int>& m)
{
    CHECK(v.size() == m.size(), "size: %zu, expected %zu", (size_t)v.size(), m.size());
    CHECK(v.empty() == m.empty(), "empty:");
    size_t i = 0;
    for(auto it = v.begin(); it != v.end(); ++it, ++i)
    {
        CHECK(i < m.size(), "iteration: too many elements");
        E e = *it;
        CHECK(same(e, m[i]), "element: position %zu is wrong, expected %s", i, show_seq(m).c_str());
    }
    CHECK(i == m.size(), "iteration: %zu of %zu elements", i, m.size());
    CHECK((size_t)(v.end() - v.begin()) == m.size(), "iterator difference:");
    for(i = 0; i < m.size(); i++) { E e = v[i]; CHECK(same(e, m[i]), "operator[]: position %zu", i); E f = v.at(i); CHECK(same(f, m[i]), "at: position %zu", i); }
    if(!m.empty()) { E f = v.front(); CHECK(same(f, m.front()), "front:"); E b = v.back(); CHECK(same(b, m.back()), "back:"); }
    const V& k = v;
    for(i = 0; i < m.size(); i++)
    {
        E e = k[i]; CHECK(same(e, m[i]), "operator[] const: position %zu", i); E f = k.at(i); CHECK(same(f, m[i]), "at const: position %zu", i);
        auto p = v.begin() + i, q = v.end() - (m.size() - i), r = v.begin(), t = v.end(); r += i; t -= (m.size() - i);
        E g = *p; CHECK(same(g, m[i]) && p == q && q == r && r == t, "iterator arithmetic: position %zu", i);
        auto u = p++; CHECK(u == q && p - q == 1, "iterator ++: position %zu", i); u = p--; CHECK(p == q && u - p == 1, "iterator --: position %zu", i); CHECK(p != u && --u == p, "iterator --: position %zu", i);
        CHECK(same(*p, m[i]) && p < v.end() && v.end() > p, "iterator order: position %zu", i);
    }
    if(!m.empty()) { E f = k.front(); CHECK(same(f, m.front()), "front const:"); E b = k.back(); CHECK(same(b, m.back()), "back const:"); }
    c.observe(show_seq(m));
}

template <class E, bool heap, class V> static bool step(Ctx& c, V& v, std::vector<int>& m, size_t cap)
{
    const size_t room = cap - m.size();
    E* t = nullptr;
    static const int many[] = { 4, 5, 6 };
    switch(c.pick(12))
    {
        case 0: { if(room < 1) return false; int x = 1 + c.pick(2); c.log("push_back(const& %d)", x); const E e = mk(t, x); v.push_back(e); m.push_back(x); return true; }
        case 1: { if(room < 1) return false; int x = 1 + c.pick(2); c.log("push_back(&& %d)", x); v.push_back(mk(t, x)); m.push_back(x); return true; }
        case 2: { if(room < 1) return false; c.log("emplace_back(3)"); if constexpr(heap) return false; else { E e = v.emplace_back(mk(t, 3)); CHECK(same(e, 3), "emplace_back: returned the wrong element"); } m.push_back(3); return true; }
        case 3: { if(m.empty()) return false; c.log("pop_back"); if constexpr(heap) return false; else v.pop_back(); m.pop_back(); return true; }
        case 4: { if(room < 1) return false; int n = c.pick((int)m.size() + 1); c.log("insert(%d, && 7)", n); auto it = v.insert(v.begin() + n, mk(t, 7)); m.insert(m.begin() + n, 7);
                  if(!heap) { E e = *it; CHECK(same(e, 7), "insert: returned iterator"); } return true; }
        case 5: { size_t k = 1 + c.pick(3); if(room < k) return false; int n = c.pick((int)m.size() + 1); c.log("insert(%d, range of %zu)", n, k);
                  E src[3] = { mk(t, 4), mk(t, 5), mk(t, 6) };
                  v.insert(v.begin() + n, src, src + k); m.insert(m.begin() + n, many, many + k); return true; }
        case 6: { if(m.empty()) return false; int n = c.pick((int)m.size()); c.log("erase(%d)", n); auto it = v.erase(v.begin() + n); m.erase(m.begin() + n);
                  CHECK(it - v.begin() == n, "erase: returned iterator is at %d, expected %d", (int)(it - v.begin()), n); return true; }
        case 7: { c.log("clear"); v.clear(); m.clear(); return true; }
        case 8: { size_t n = c.pick((int)m.size() + 1); c.log("resize(%zu)", n); v.resize(n); m.resize(n); return true; }
        case 9: { if(m.empty()) return false; int n = c.pick((int)m.size()); c.log("[%d] = 8", n); v[n] = mk(t, 8); m[n] = 8; return true; }
        case 10: { size_t k = c.pick(3); if(room < k) return false; E src[3] = { mk(t, 4), mk(t, 5), mk(t, 6) };
                   c.log("append(%zu elements)", k); v.append(src, k); m.insert(m.end(), many, many + k); return true; }
        case 11: { if(m.size() < 2) return false; int last = (int)m.size() - 1;
                   switch(c.pick(4))
                   {
                       case 0: c.log("[0] = [%d]", last); v[0] = v[last]; m[0] = m[last]; return true;
                       case 1: c.log("at(%d) = at(0)", last); v.at(last) = v.at(0); m[last] = m[0]; return true;
                       case 2: c.log("front() = back()"); v.front() = v.back(); m.front() = m.back(); return true;
                       default: { c.log("*(end()-1) = *begin()"); auto p = v.end() - 1, q = v.begin(); *p = *q; m[last] = m[0]; return true; }
                   } }
    }
    return false;
}

template <class E, class V, class B> static void loop(Ctx& c, V& v, size_t cap, bool heap, B&& bytes, std::vector<int> m = {})
{
    agree<E>(c, v, m);
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(show_seq(m) + bytes(), c.bound - d)) return;
        if(!step<E, false>(c, v, m, cap)) return;
        agree<E>(c, v, m);
    }
}

template <class E> static void l1(Ctx& c)
{
    typedef estd::layer1::vector<E, 5> V; typedef Fixed<V> F;
    F::fill(0xAA);
    V* v = F::make();
    loop<E>(c, *v, 5, false, []{ return std::string(); });
    CHECK(F::intact(), "memory outside the vector was written");
}
template <class E> static void l2(Ctx& c)
{
    struct B { E b[5]; }; typedef Fixed<B, 2> F; F::fill(0xAA);
    E* b = ((B*)F::raw())->b;
    // a buffer may be given that already holds elements
    int n = c.pick(3) * 2; std::vector<int> m;
    for(int i = 0; i < n; i++) { b[i] = mk((E*)0, 11 + i); m.push_back(11 + i); }
    c.log("buffer with %d elements in it", n);
    if(n) { estd::layer2::vector<E, 5> v(b, n); loop<E>(c, v, 5, false, []{ return std::string(); }, m); }
    else { estd::layer2::vector<E, 5> v(b); loop<E>(c, v, 5, false, []{ return std::string(); }, m); }
    CHECK(F::intact(), "memory outside the buffer was written");
}
template <class E> static void l3(Ctx& c)
{
    struct B { E b[5]; }; typedef Fixed<B, 3> F; F::fill(0xAA);
    E* b = ((B*)F::raw())->b;
    int n = 5 - c.pick(3); c.log("room for %d", n);
    auto run = [&](auto& v) { CHECK((int)v.capacity() == n, "capacity:"); loop<E>(c, v, n, false, [n]{ return std::to_string(n); }); };
    if(n == 5) { estd::layer3::vector<E> v(((B*)F::raw())->b); run(v); } else { estd::layer3::vector<E> v(b, n); run(v); }
    CHECK(F::intact(), "memory outside the buffer was written");
}
template <class E> static void heap(Ctx& c)
{
    g_heap.reset();
    {
        E* t = nullptr; typedef estd::vector<E, heap_allocator<E>> V; alignas(V) unsigned char room[sizeof(V)]; memset(room, 0xA5, sizeof room);
        std::vector<int> m; V* made = nullptr;
        switch(c.pick(4))
        {
            case 0: made = new (room) V; break;
            case 1: c.log("reserve(2)"); made = new (room) V; made->reserve(2); break;
            case 2: c.log("made from {1}"); made = new (room) V{mk(t, 1)}; m = {1}; break;
            default: c.log("made from {1, 2, 3}"); made = new (room) V{mk(t, 1), mk(t, 2), mk(t, 3)}; m = {1, 2, 3}; break;
        }
        Own<V> owner(made); V& v = *made;
        agree<E>(c, v, m);
        for(int d = 0; d < c.bound; d++)
        {
            if(c.visited(show_seq(m) + "/" + std::to_string(v.capacity()), c.bound - d)) break;
            if(!step<E, true>(c, v, m, 60)) break;
            agree<E>(c, v, m);
            CHECK(v.capacity() >= m.size(), "capacity: below size");
        }
    }
}
// storage obtained from the allocator is given back (a recorded finding: it is not)
SCENARIO(heap_release, 1, 1)
{
    g_heap.reset();
    { estd::vector<int, heap_allocator<int>> v; v.push_back(1); c.log("push_back, then destroy"); }
    c.state(std::to_string(g_heap.live));
    CHECK(g_heap.live == 0, "heap: %ld blocks still allocated after the vector is gone", g_heap.live);
}
static void a(Ctx& c) { l1<int>(c); }
static void b(Ctx& c) { l1<Pair>(c); }
static void d(Ctx& c) { l1<unsigned char>(c); }
static void e(Ctx& c) { l2<short>(c); }
static void f(Ctx& c) { l2<Pair>(c); }
static void g(Ctx& c) { l3<int>(c); }
static void h(Ctx& c) { l3<Pair>(c); }
static void i(Ctx& c) { heap<int>(c); }
static void j(Ctx& c) { heap<Pair>(c); }
SCENARIO_FN(layer1_int, a, 5, 6);
SCENARIO_FN(layer1_struct, b, 5, 6);
SCENARIO_FN(layer1_byte, d, 5, 6);
SCENARIO_FN(layer2_short, e, 5, 6);
SCENARIO_FN(layer2_struct, f, 5, 6);
SCENARIO_FN(layer3_int, g, 5, 6);
SCENARIO_FN(layer3_struct, h, 5, 6);
SCENARIO_FN(heap_int, i, 4, 5);
SCENARIO_FN(heap_struct, j, 3, 5);
// sizes around one byte's range
template <class E, size_t N> static void large(Ctx& c)
{
    typedef estd::layer1::vector<E, N> V; typedef Fixed<V, 5> F; F::fill(0xAA);
    V& v = *F::make(); std::vector<int> m; E* t = nullptr;
    size_t start = c.flip() ? N - c.pick(4) : 252 + c.pick(5);
    if(start > N) return;
    for(size_t i = 0; i < start; i++) { v.push_back(mk(t, (int)i % 100)); m.push_back((int)i % 100); }
    agree<E>(c, v, m);
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(show_seq(m), c.bound - d)) return;
        size_t room = N - m.size(); int at[] = { 0, 1, (int)m.size() / 2, (int)m.size() - 1, (int)m.size() };
        switch(c.pick(5))
        {
            case 0: if(room < 1) return; c.log("push_back"); v.push_back(mk(t, 1)); m.push_back(1); break;
            case 1: c.log("pop_back"); v.pop_back(); m.pop_back(); break;
            case 2: { if(room < 1) return; int n = c.of(at); c.log("insert(%d)", n); v.insert(v.begin() + n, mk(t, 7)); m.insert(m.begin() + n, 7); break; }
            case 3: { int n = at[c.pick(4)]; c.log("erase(%d)", n); v.erase(v.begin() + n); m.erase(m.begin() + n); break; }
            case 4: { if(room < 3) return; int n = c.of(at); E src[3] = { mk(t, 4), mk(t, 5), mk(t, 6) }; int many[] = { 4, 5, 6 }; c.log("insert(%d, range)", n);
                      v.insert(v.begin() + n, src, src + 3); m.insert(m.begin() + n, many, many + 3); break; }
        }
        agree<E>(c, v, m);
    }
    CHECK(F::intact(), "memory outside the vector was written");
}
static void la(Ctx& c) { large<int, 255>(c); }
static void lb(Ctx& c) { large<unsigned char, 256>(c); }
static void lc(Ctx& c) { large<short, 300>(c); }
SCENARIO_FN(large_int_255, la, 3, 4);
SCENARIO_FN(large_byte_256, lb, 3, 4);
SCENARIO_FN(large_short_300, lc, 3, 4);

// appending one of the vector's own elements, by reference, at every size
template <class E, class V> static void own_elements(Ctx& c, V& v, size_t cap)
{
    E* t = 0; std::vector<int> m; size_t n = c.pick(cap > 64 ? 64 : (int)cap);
    for(size_t i = 0; i < n; i++) { v.push_back(mk(t, (int)i + 1)); m.push_back((int)i + 1); }
    for(int d = 0; d < c.bound && m.size() < cap; d++)
    {
        if(m.empty()) return;
        size_t at[] = { 0, m.size() / 2, m.size() - 1 }; size_t i = c.of(at);
        c.log("push_back(own element %zu of %zu)", i, m.size());
        v.push_back(v.clock()[i]); m.push_back((int)m[i]); v.cunlock();
        CHECK((size_t)v.size() == m.size(), "size() is %zu, expected %zu", (size_t)v.size(), m.size());
        for(size_t k = 0; k < m.size(); k++) CHECK(same(v.clock()[k], m[k]), "element %zu of %zu is wrong after appending element %zu", k, m.size(), i);
    }
    c.observe(std::to_string(m.size()));
}
static void own_heap(Ctx& c) { g_heap.reset(); estd::vector<int, heap_allocator<int>> v; own_elements<int>(c, v, 200); }
static void own_heap_struct(Ctx& c) { g_heap.reset(); estd::vector<Pair, heap_allocator<Pair>> v; own_elements<Pair>(c, v, 200); }
static void own_fixed(Ctx& c) { estd::layer1::vector<int, 8> v; own_elements<int>(c, v, 8); }
SCENARIO_FN(own_elements_heap, own_heap, 4, 5);
SCENARIO_FN(own_elements_heap_struct, own_heap_struct, 4, 5);
SCENARIO_FN(own_elements_fixed, own_fixed, 8, 8);

// elements that can be made from one another but not assigned
struct Once { const int v; const char* tag; explicit Once(int v) : v(v), tag("o") {} Once(const Once&) = default; Once(Once&&) = default; Once& operator=(const Once&) = delete; Once& operator=(Once&&) = delete; };
template <class V> static void once(Ctx& c, V& v, size_t cap)
{
    std::vector<int> m;
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(show_seq(m), c.bound - d)) return;
        switch(c.pick(6))
        {
            case 0: { if(m.size() == cap) return; int x = 1 + c.pick(3); c.log("push_back(&& %d)", x); v.push_back(Once(x)); m.push_back(x); break; }
            case 1: { if(m.size() == cap || m.empty()) return; int n = c.pick((int)m.size()); c.log("insert(%d, && 6)", n); auto it = v.insert(v.begin() + n, Once(6)); m.insert(m.begin() + n, 6); CHECK((*it).v == 6, "insert: returned iterator"); break; }
            case 2: { if(m.size() == cap) return; c.log("emplace_back(4)"); v.emplace_back(4); m.push_back(4); break; }
            case 3: { if(m.size() == cap) return; int n = c.pick((int)m.size() + 1); c.log("insert(%d, && 5)", n); v.insert(v.begin() + n, Once(5)); m.insert(m.begin() + n, 5); break; }
            case 4: { if(m.empty()) return; c.log("pop_back"); v.pop_back(); m.pop_back(); break; }
            case 5: { c.log("clear"); v.clear(); m.clear(); break; }
        }
        CHECK(v.size() == m.size(), "size: %zu, expected %zu", (size_t)v.size(), m.size());
        for(size_t i = 0; i < m.size(); i++) CHECK(v.data()[i].v == m[i] && v.data()[i].tag && *v.data()[i].tag == 'o', "element: position %zu is %d, expected %s", i, v.data()[i].v, show_seq(m).c_str());
        c.observe(show_seq(m));
    }
}
static void once1(Ctx& c) { typedef estd::layer1::vector<Once, 6> V; typedef Fixed<V, 4> F; F::fill(0xAA); once(c, *F::make(), 6); CHECK(F::intact(), "memory outside the vector was written"); }
SCENARIO_FN(once_made, once1, 6, 8);

// copies are independent of what they were copied from, and compare equal to it until either changes
SCENARIO(two_vectors, 5, 6)
{
    typedef estd::layer1::vector<int, 4> V; typedef Fixed<V, 6> F0; typedef Fixed<V, 7> F1; typedef Fixed<V, 8> F2; F0::fill(0xAA); F1::fill(0xAA); F2::fill(0xAA);
    V* x[2] = { F0::make(), F1::make() }; std::vector<int> m[2];
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(show_seq(m[0]) + "/" + show_seq(m[1]), c.bound - d)) return;
        int i = c.pick(2), o = 1 - i;
        switch(c.pick(8))
        {
            case 0: { if(m[i].size() == 4) return; int e = 1 + c.pick(2); c.log("%d.push_back(%d)", i, e); x[i]->push_back(e); m[i].push_back(e); break; }
            case 1: { if(m[i].empty()) return; c.log("%d.pop_back()", i); x[i]->pop_back(); m[i].pop_back(); break; }
            case 2: { if(m[i].empty()) return; int n = c.pick((int)m[i].size()); c.log("%d[%d] = 3", i, n); (*x[i])[n] = 3; m[i][n] = 3; break; }
            case 3: c.log("%d = %d", i, o); *x[i] = *x[o]; m[i] = m[o]; break;
            case 4: { c.log("%d = itself", i); V& s = *x[i]; s = *x[i]; break; }
            case 5: { c.log("%d = a copy of %d, made into used memory", i, o); F2::fill(0xA5); V* t = new (F2::raw()) V(*x[o]); if(t->size() < 4) t->push_back(9); else t->pop_back();
                      std::vector<int> w = m[o]; w.size() < 4 ? w.push_back(9) : w.pop_back(); *x[i] = *t; m[i] = w; break; }
            case 6: { if(m[i].empty() || m[o].empty()) return; c.log("%d.front() = %d.back()", i, o); x[i]->front() = x[o]->back(); m[i].front() = m[o].back(); break; }
            case 7: { c.log("%d = {4, 5, 6}", i); *x[i] = V{4, 5, 6}; m[i] = {4, 5, 6}; break; }
        }
        for(int k = 0; k < 2; k++)
        {
            CHECK(x[k]->size() == m[k].size(), "size: of %d", k); for(size_t n = 0; n < m[k].size(); n++) CHECK((int)(*x[k])[n] == m[k][n], "element: %zu of %d", n, k);
        }
        CHECK((*x[0] == *x[1]) == (m[0] == m[1]), "==: says %d", *x[0] == *x[1]); CHECK(*x[i] == *x[i], "==: itself");
        estd::layer1::vector<int, 6> w; for(int e : m[1]) w.push_back(e);
        CHECK((*x[0] == w) == (m[0] == m[1]), "==: with a vector of another capacity says %d", *x[0] == w);
        CHECK((F0::intact() && F1::intact()), "memory outside the vectors was written"); c.observe(show_seq(m[0]) + "/" + show_seq(m[1]));
    }
}

// vectors which count in one byte against vectors which count in two
template <class A, class B> static void sized_eq(Ctx& c, size_t capA, size_t capB)
{
    static const size_t sizes[] = { 0, 1, 2, 3, 253, 254, 255, 256, 257, 258, 259, 299, 300 };
    size_t n = c.of(sizes), m = c.of(sizes); if(n > capA || m > capB) return;
    A& a = *new A; B& b = *new B; std::vector<int> ra, rb;
    for(size_t i = 0; i < n; i++) { int x = (int)(i % 7); ra.push_back(x); } for(size_t i = 0; i < m; i++) { int x = (int)(i % 7); rb.push_back(x); }
    int diff = c.pick(3); if(diff == 1 && n) ra.back() ^= 1; if(diff == 2 && m) rb[0] ^= 1;
    for(int x : ra) a.push_back(x); for(int x : rb) b.push_back(x);
    c.log("%zu elements and %zu, different %d", n, m, diff); c.state(std::to_string(n) + "/" + std::to_string(m));
    bool ab = a == b, ba = b == a, want = ra == rb; delete &a; delete &b;
    CHECK(ab == want && ba == want, "==: vectors of %zu and %zu elements: %d and %d, expected %d", n, m, ab, ba, want); c.observe(want);
}
static void se1(Ctx& c) { sized_eq<estd::layer1::vector<int, 4>, estd::layer1::vector<int, 300>>(c, 4, 300); }
static void se2(Ctx& c) { sized_eq<estd::layer1::vector<int, 255>, estd::layer1::vector<int, 300>>(c, 255, 300); }
static void se3(Ctx& c) { sized_eq<estd::layer1::vector<int, 300>, estd::layer1::vector<int, 300>>(c, 300, 300); }
SCENARIO_FN(equal_small_large, se1, 1, 1);
SCENARIO_FN(equal_byte_large, se2, 1, 1);
SCENARIO_FN(equal_large, se3, 1, 1);
