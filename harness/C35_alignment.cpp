// Property C35: whatever is kept in a container or holder sits at an address suitable for its type.
// ALSO: -std=gnu++20
#include <estd/string.h>
#include <estd/array.h>
#include <estd/vector.h>
#include <estd/queue.h>
#include <estd/stack.h>
#include <estd/optional.h>
#include <estd/variant.h>
#include <estd/expected.h>
#include <estd/tuple.h>
#include <estd/functional.h>
#include <estd/memory.h>
#include <estd/unordered_map.h>
#include <estd/unordered_set.h>
#include <estd/internal/memory/pool.h>
#include <estd/exp/memory/memory_pool2.h>
#include "mc.h"
using namespace mc;

// plain data of a given alignment and size
template <unsigned A, unsigned S = A> struct alignas(A) Plain { unsigned char b[S]; bool operator<(const Plain& o) const { return b[0] < o.b[0]; } bool operator==(const Plain& o) const { return b[0] == o.b[0]; } };
template <class P> static P make(int v) { P p; memset((void*)&p, 0, sizeof p); *(unsigned char*)&p = (unsigned char)v; return p; }
template <class P> static int val(const P& p) { return *(const unsigned char*)&p; }

// an object which looks at its own address whenever it is made, assigned or destroyed
static unsigned off_by;
template <unsigned A, unsigned S = A> struct alignas(A) Obj
{
    unsigned char v; unsigned char rest[S - 1 + (S == 1)];
    void look() const { unsigned d = (uintptr_t)this % A; if(d) off_by = d; }
    Obj(int v = 0) : v((unsigned char)v) { look(); }
    Obj(const Obj& o) : v(o.v) { look(); o.look(); }
    Obj(Obj&& o) : v(o.v) { look(); o.look(); }
    Obj& operator=(const Obj& o) { v = o.v; look(); o.look(); return *this; }
    Obj& operator=(Obj&& o) { v = o.v; look(); o.look(); return *this; }
    ~Obj() { look(); }
};

// every place the holder may itself occupy within one 64-byte line
template <class H> struct Place
{
    unsigned char* mem; unsigned char* at; int n;
    Place(Ctx& c)
    {
        enum { step = alignof(H) }; int slots = 64 / step; if(slots < 1) slots = 1;
        n = c.pick(slots);
        mem = (unsigned char*)aligned_alloc(128, (sizeof(H) + 64 + 128 + 127) / 128 * 128); memset(mem, 0xAA, sizeof(H) + 64 + 128);
        at = mem + n * step;
        off_by = 0;
    }
    ~Place() { free(mem); }
};
template <class T> static void ok(Ctx& c, const T* p, const char* what)
{
    CHECK((uintptr_t)p % alignof(T) == 0, "%s: an element that needs alignment %zu is at an address %zu off", what, alignof(T), (size_t)((uintptr_t)p % alignof(T)));
}
static void looked(Ctx& c, const char* what) { CHECK(!off_by, "%s: an object was used at an address %u off its alignment", what, off_by); }

template <class P, unsigned N> static void vector_of(Ctx& c)
{
    typedef estd::layer1::vector<P, N> V; Place<V> pl(c); V& v = *new (pl.at) V; std::vector<int> m;
    c.log("vector of %u elements of alignment %zu at +%d", N, alignof(P), pl.n);
    for(int d = 0; d < 4; d++)
    {
        switch(c.pick(3))
        {
            case 0: if(m.size() == N) return; v.push_back(make<P>(d)); m.push_back(d); break;
            case 1: if(m.size() == N) return; v.insert(v.begin(), make<P>(d + 40)); m.insert(m.begin(), d + 40); break;
            case 2: if(m.empty()) return; v.erase(v.begin()); m.erase(m.begin()); break;
        }
        for(size_t i = 0; i < m.size(); i++) { ok(c, v.data() + i, "vector"); CHECK(val(v.data()[i]) == m[i], "vector: element %zu", i); }
        for(auto it = v.begin(); it != v.end(); ++it) { auto& r = it.lock(); ok(c, &r, "vector iteration"); it.unlock(); }
    }
    c.observe(show_seq(m)); c.state(show_seq(m) + char(pl.n));
}
template <class P, unsigned N> static void array_of(Ctx& c)
{
    typedef estd::array<P, N> V; Place<V> pl(c); V& v = *new (pl.at) V; c.log("array of %u elements of alignment %zu at +%d", N, alignof(P), pl.n);
    for(unsigned i = 0; i < N; i++) { v[i] = make<P>(i); ok(c, &v[i], "array"); }
    for(auto& e : v) ok(c, &e, "array iteration");
    ok(c, v.data(), "array data"); c.state(std::to_string(pl.n) + "/" + std::to_string(N)); c.observe(pl.n);
}
template <class P, unsigned N> static void deque_of(Ctx& c)
{
    typedef estd::layer1::deque<P, N> V; Place<V> pl(c); V& v = *new (pl.at) V; std::vector<int> m;
    c.log("deque of %u elements of alignment %zu at +%d", N, alignof(P), pl.n);
    for(int d = 0; d < 5; d++)
    {
        switch(c.pick(4))
        {
            case 0: if(m.size() == N) return; v.push_back(make<P>(d)); m.push_back(d); break;
            case 1: if(m.size() == N) return; v.push_front(make<P>(d + 40)); m.insert(m.begin(), d + 40); break;
            case 2: if(m.empty()) return; v.pop_back(); m.pop_back(); break;
            case 3: if(m.empty()) return; v.pop_front(); m.erase(m.begin()); break;
        }
        if(!m.empty()) { auto& f = v.front(); ok(c, &f, "deque front"); CHECK(val(f) == m.front(), "deque: front"); auto& b = v.back(); ok(c, &b, "deque back"); CHECK(val(b) == m.back(), "deque: back"); }
        if(m.size() < N) for(auto it = v.begin(); it != v.end(); ++it) ok(c, &*it, "deque iteration");
    }
    c.observe(show_seq(m)); c.state(show_seq(m) + char(pl.n));
}
template <class P, unsigned N> static void pq_of(Ctx& c)
{
    typedef estd::layer1::priority_queue<P, N> V; Place<V> pl(c); V& v = *new (pl.at) V; int n = 0;
    c.log("priority queue of %u elements of alignment %zu at +%d", N, alignof(P), pl.n);
    for(int d = 0; d < 4; d++)
    {
        if(c.flip()) { if(n == N) return; v.push(make<P>(d * 7 % 5)); ++n; } else { if(!n) return; v.pop(); --n; }
        for(int i = 0; i < n; i++) ok(c, v.container().data() + i, "priority queue");
        if(n) { auto t = v.top(); auto& r = t.lock(); ok(c, &r, "priority queue top"); t.unlock(); }
    }
    c.state(std::to_string(n) + "/" + std::to_string(pl.n)); c.observe(n);
}
template <class P> static void map_of(Ctx& c)
{
    if constexpr(alignof(P) < 4) { c.state("-"); return; } else {
    struct Hash { unsigned operator()(int k) const { return (unsigned)k; } };
    typedef estd::layer1::unordered_map<int, P, 6, Hash> M; Place<M> pl(c); M& m = *new (pl.at) M; int held = 0;
    c.log("map to values of alignment %zu at +%d", alignof(P), pl.n);
    for(int d = 0; d < 4; d++)
    {
        int k = 1 + c.pick(3);
        if(c.flip()) m.emplace(k, make<P>(k)); else m.erase(k);
        for(auto it = m.begin(); it != m.end(); ++it) { auto& kv = *it; ok(c, &kv, "map slot"); ok(c, &kv.first, "map key"); ok(c, &kv.second, "map value"); CHECK(val(kv.second) == kv.first, "map: value of %d", kv.first); ++held; }
    }
    c.state(std::to_string(held) + "/" + std::to_string(pl.n)); c.observe(held);
} }
template <class K> static void set_of(Ctx& c)
{
    struct Hash { unsigned operator()(K k) const { return (unsigned)k; } };
    typedef estd::layer1::unordered_set<K, 6, Hash> M; Place<M> pl(c); M& m = *new (pl.at) M;
    c.log("set of keys of alignment %zu at +%d", alignof(K), pl.n);
    for(int d = 0; d < 4; d++)
    {
        K k = (K)(1 + c.pick(3));
        if(c.flip()) m.insert(k); else m.erase(k);
        for(auto it = m.begin(); it != m.end(); ++it) ok(c, &*it, "set key");
    }
    c.state(std::to_string(pl.n)); c.observe(pl.n);
}
template <class T> static void optional_of(Ctx& c)
{
    typedef estd::optional<T> O; Place<O> pl(c); c.log("optional of alignment %zu at +%d", alignof(T), pl.n);
    O* a = new (pl.at) O; O b(T(5));
    for(int d = 0; d < 3; d++)
        switch(c.pick(5))
        {
            case 0: *a = T(d + 1); ok(c, &a->value(), "optional"); break;
            case 1: a->emplace(d + 1); ok(c, &**a, "optional"); break;
            case 2: *a = b; ok(c, &a->value(), "optional"); break;
            case 3: a->reset(); break;
            case 4: *a = O(T(7)); ok(c, &a->value(), "optional"); break;
        }
    a->~O(); looked(c, "optional"); c.state(std::to_string(pl.n)); c.observe(pl.n);
}
template <class T, class U> static void variant_of(Ctx& c)
{
    typedef estd::variant<char, T, U> V; Place<V> pl(c); c.log("variant of alignments %zu and %zu at +%d", alignof(T), alignof(U), pl.n);
    V* v = new (pl.at) V('x');
    for(int d = 0; d < 3; d++)
        switch(c.pick(3))
        {
            case 0: *v = 'y'; ok(c, &estd::get<0>(*v), "variant"); break;
            case 1: v->template emplace<1>(d); ok(c, &estd::get<1>(*v), "variant"); break;
            case 2: v->template emplace<2>(d); ok(c, &estd::get<2>(*v), "variant"); break;
        }
    v->~V(); looked(c, "variant"); c.state(std::to_string(pl.n)); c.observe(pl.n);
}
template <class T, class E> static void expected_of(Ctx& c)
{
    typedef estd::expected<T, E> X; Place<X> pl(c); c.log("expected of alignments %zu and %zu at +%d", alignof(T), alignof(E), pl.n);
    X* x = c.flip() ? new (pl.at) X(T(1)) : new (pl.at) X(estd::unexpect_t(), E(2));
    if(x->has_value()) ok(c, &x->value(), "expected value"); else ok(c, &x->error(), "expected error");
    x->emplace(4); ok(c, &x->value(), "expected value");
    x->~X(); looked(c, "expected"); c.state(std::to_string(pl.n)); c.observe(pl.n);
}
template <class A, class B, class C> static void tuple_of(Ctx& c)
{
    typedef estd::tuple<A, B, C> X; Place<X> pl(c); c.log("tuple of alignments %zu, %zu, %zu at +%d", alignof(A), alignof(B), alignof(C), pl.n);
    X* x = new (pl.at) X(A(), B(), C());
    ok(c, &estd::get<0>(*x), "tuple"); ok(c, &estd::get<1>(*x), "tuple"); ok(c, &estd::get<2>(*x), "tuple");
    x->~X(); looked(c, "tuple"); c.state(std::to_string(pl.n)); c.observe(pl.n);
}
template <class T> static void shared_of(Ctx& c)
{
    typedef estd::layer1::shared_ptr<T> X; Place<X> pl(c); c.log("embedded shared object of alignment %zu at +%d", alignof(T), pl.n);
    X* x = new (pl.at) X; x->construct(3); ok(c, x->get(), "shared object");
    { estd::layer3::shared_ptr<T> r(*x); ok(c, r.get(), "shared object"); }
    x->~X(); looked(c, "shared object"); c.state(std::to_string(pl.n)); c.observe(pl.n);
}
template <class T> static void pool_of(Ctx& c)
{
    typedef estd::experimental::memory::v2::memory_pool<T, 3, estd::experimental::memory::v2::pool_types::linked_list> X;
    Place<X> pl(c); c.log("pool of blocks of alignment %zu at +%d", alignof(T), pl.n); X* x = new (pl.at) X; std::vector<T*> out;
    for(int d = 0; d < 4; d++)
        if(c.flip()) { if(out.size() == 3) return; T* p = x->allocate(); ok(c, p, "pool"); out.push_back(p); }
        else { if(out.empty()) return; int i = c.pick((int)out.size()); x->deallocate(out[i]); out.erase(out.begin() + i); }
    c.state(std::to_string(pl.n)); c.observe(out.size());
}
template <class Ch> static void string_of(Ctx& c)
{
    typedef estd::layer1::basic_string<Ch, 6, false> S; Place<S> pl(c); S& s = *new (pl.at) S; c.log("string of characters of size %zu at +%d", sizeof(Ch), pl.n);
    for(int i = 0; i < 5; i++) { s += (Ch)('a' + i); ok(c, s.data(), "string"); CHECK(s.data()[i] == (Ch)('a' + i), "string: character %d", i); }
    c.state(std::to_string(pl.n)); c.observe(pl.n);
}
template <class T> struct Calls { T t; int operator()(int k) { unsigned d = (uintptr_t)&t % alignof(T); if(d) off_by = d; return k + t.v; } };
template <class T> static void function_of(Ctx& c)
{
    typedef estd::experimental::inline_function<Calls<T>, int(int)> X; Place<X> pl(c); c.log("function holding a callable of alignment %zu at +%d", alignof(T), pl.n);
    X* x = new (pl.at) X(Calls<T>{T(3)}); CHECK((*x)(4) == 7, "function: result"); looked(c, "function");
    x->~X(); c.state(std::to_string(pl.n)); c.observe(pl.n);
}
template <unsigned A, unsigned S> static void all_of(Ctx& c)
{
    typedef Plain<A, S> P; typedef Obj<A, S> T;
    switch(c.pick(25))
    {
        case 0: vector_of<P, 3>(c); break;
        case 1: vector_of<P, 300>(c); break;
        case 2: array_of<P, 3>(c); break;
        case 3: deque_of<P, 3>(c); break;
        case 4: pq_of<P, 4>(c); break;
        case 5: map_of<P>(c); break;
        case 6: optional_of<T>(c); break;
        case 7: variant_of<T, Obj<1>>(c); break;
        case 8: variant_of<Obj<2>, T>(c); break;
        case 9: expected_of<T, Obj<1>>(c); break;
        case 10: expected_of<Obj<2>, T>(c); break;
        case 11: tuple_of<Obj<1>, T, Obj<2>>(c); break;
        case 12: tuple_of<T, Obj<1>, T>(c); break;
        case 13: shared_of<T>(c); break;
        case 14: pool_of<P>(c); break;
        case 15: function_of<T>(c); break;
        case 16: array_of<T, 2>(c); break;
        // a large alternative which asks for little alignment beside a small one which asks for more
        case 17: variant_of<Obj<1, 67>, T>(c); break;
        case 18: variant_of<T, Obj<2, 134>>(c); break;
        case 19: expected_of<T, Obj<1, 67>>(c); break;
        // objects larger than one cache line, whatever their alignment
        case 20: shared_of<Obj<A, 192>>(c); break;
        case 21: optional_of<Obj<A, 192>>(c); break;
        case 22: vector_of<Plain<A, 192>, 3>(c); break;
        case 23: pool_of<Plain<A, 192>>(c); break;
        case 24: deque_of<Plain<A, 192>, 3>(c); break;
    }
}
SCENARIO_FN(alignment_1, (all_of<1, 1>), 1, 1);
SCENARIO_FN(alignment_1_wide, (all_of<1, 3>), 1, 1);
SCENARIO_FN(alignment_2, (all_of<2, 2>), 1, 1);
SCENARIO_FN(alignment_2_wide, (all_of<2, 6>), 1, 1);
SCENARIO_FN(alignment_4, (all_of<4, 4>), 1, 1);
SCENARIO_FN(alignment_4_wide, (all_of<4, 12>), 1, 1);
SCENARIO_FN(alignment_8, (all_of<8, 8>), 1, 1);
SCENARIO_FN(alignment_8_wide, (all_of<8, 24>), 1, 1);
SCENARIO_FN(alignment_16, (all_of<16, 16>), 1, 1);
SCENARIO_FN(alignment_32, (all_of<32, 32>), 1, 1);
SCENARIO_FN(alignment_64, (all_of<64, 64>), 1, 1);
SCENARIO(basic_types, 1, 1)
{
    switch(c.pick(20))
    {
        case 0: vector_of<short, 4>(c); break;
        case 1: vector_of<int, 4>(c); break;
        case 2: vector_of<long long, 4>(c); break;
        case 3: vector_of<double, 4>(c); break;
        case 4: vector_of<const char*, 4>(c); break;
        case 5: array_of<double, 3>(c); break;
        case 6: deque_of<double, 4>(c); break;
        case 7: pq_of<double, 4>(c); break;
        case 8: map_of<unsigned>(c); break;
        case 9: map_of<int>(c); break;
        case 10: map_of<double>(c); break;
        case 11: set_of<short>(c); break;
        case 12: set_of<int>(c); break;
        case 13: set_of<long long>(c); break;
        case 14: string_of<char>(c); break;
        case 15: string_of<char16_t>(c); break;
        case 16: string_of<wchar_t>(c); break;
        case 17: deque_of<short, 3>(c); break;
        case 18: pq_of<long long, 3>(c); break;
        case 19: set_of<unsigned char>(c); break;
    }
}
