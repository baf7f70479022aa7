// Property C17: a memory pool hands out distinct blocks of its own and takes every one back.
#include <estd/memory.h>
#include <estd/internal/memory/pool.h>
#include <estd/exp/memory/memory_pool.h>
#include <estd/exp/memory/memory_pool2.h>
#include "mc.h"
using namespace mc;
namespace im = estd::internal::memory::v1; namespace xm = estd::experimental::memory;

// uniform face: get() a block or null, put() it back, free_blocks(), bytes per block
template <unsigned B, unsigned N> struct Raw
{
    typedef im::pool<B, N> X; enum { n = N, bytes = B, handles = 1 };
    static void* get(X& x) { return x.alloc(); } static void put(X& x, void* p) { x.free(p); }
    static unsigned left(X& x) { return x.available_blocks(); } static bool full(X& x) { return x.full(); }
    static void handles_ok(Ctx& c, X& x, void* p, std::vector<long>& seen) { auto h = x.to_handle(p); void* q = x.from_handle(h); CHECK(q == p, "handle: %ld leads to another block", (long)h); seen.push_back((long)h); }
};
template <class T, unsigned N> struct V1H
{
    typedef xm::v1::memory_pool_1<T, N> X; enum { n = N, bytes = sizeof(T), handles = 0 };
    static void* get(X& x) { return x.allocate(); } static void put(X& x, void* p) { x.deallocate((T*)p); }
    static unsigned left(X& x) { return x.count_free(); } static bool full(X& x) { return x.count_free() == 0; }
    static void handles_ok(Ctx&, X&, void*, std::vector<long>&) {}
};
template <class T, unsigned N> struct V2L
{
    typedef xm::v2::memory_pool<T, N, xm::v2::pool_types::linked_list> X; enum { n = N, bytes = sizeof(T), handles = 0 };
    static void* get(X& x) { return x.allocate(); } static void put(X& x, void* p) { x.deallocate((T*)p); }
    static unsigned left(X& x) { return x.count_free(); } static bool full(X& x) { return x.count_free() == 0; }
    static void handles_ok(Ctx&, X&, void*, std::vector<long>&) {}
};
struct Bytes32 { unsigned char b[32]; };
template <class P> static void pool(Ctx& c)
{
    typedef typename P::X X; typedef Fixed<X, 0> F; F::fill(c.flip() ? 0xFF : 0x00); Own<X> x(F::make());
    struct H { unsigned char* p; unsigned char tag; }; std::vector<H> held; unsigned char next = 1; std::vector<int> freed;      // order of frees, as block numbers
    std::vector<unsigned char*> known; auto number = [&](unsigned char* p) { for(size_t i = 0; i < known.size(); i++) if(known[i] == p) return (int)i; known.push_back(p); return (int)known.size() - 1; };
    for(int d = 0; ; d++)
    {
        unsigned l = P::left(*x); CHECK(l == P::n - held.size(), "count: %u blocks left, expected %zu", l, (size_t)P::n - held.size());
        CHECK(P::full(*x) == (held.size() == P::n), "full: says %d with %zu of %d out", (int)P::full(*x), held.size(), (int)P::n);
        std::vector<long> hs;
        for(auto& h : held) { for(int i = 0; i < P::bytes; i++) CHECK(h.p[i] == h.tag, "content: byte %d of a block changed", i); P::handles_ok(c, *x, h.p, hs); }
        for(size_t i = 0; i < hs.size(); i++) for(size_t j = 0; j < i; j++) CHECK(hs[i] != hs[j], "handle: two blocks share one");
        CHECK(F::intact(), "memory: written outside the pool");
        std::string key; for(auto& h : held) key += std::to_string(number(h.p)) + ","; key += "|"; for(int f : freed) key += std::to_string(f) + ","; c.observe(key);
        if(d == c.bound) break;
        if(c.visited(key, c.bound - d)) break;
        int op = c.pick((int)held.size() + 1);
        if(op == 0)
        {
            c.log("alloc"); unsigned char* p = (unsigned char*)P::get(*x);
            CHECK((p != nullptr) == (held.size() < P::n), "alloc: %s with %zu of %d out", p ? "gave a block" : "gave nothing", held.size(), (int)P::n);
            if(p)
            {
                CHECK(p >= F::raw() && p + P::bytes <= F::raw() + sizeof(X), "alloc: block outside the pool");
                for(auto& h : held) CHECK(p + P::bytes <= h.p || h.p + P::bytes <= p, "alloc: overlaps a block already out");
                memset(p, next, P::bytes); held.push_back({p, next++}); int k = number(p); for(size_t i = 0; i < freed.size(); i++) if(freed[i] == k) { freed.erase(freed.begin() + i); break; }
            }
        }
        else { c.log("free %d", op - 1); unsigned char* p = held[op - 1].p; held.erase(held.begin() + (op - 1)); memset(p, 0xEE, P::bytes); P::put(*x, p); freed.push_back(number(p)); }
    }
}
SCENARIO_FN(one_block, (pool<Raw<8, 1>>), 6, 8);
SCENARIO_FN(tiny_blocks, (pool<Raw<1, 3>>), 8, 11);
SCENARIO_FN(blocks_of_three, (pool<Raw<13, 4>>), 8, 11);
SCENARIO_FN(large_blocks, (pool<Raw<64, 3>>), 8, 11);
SCENARIO_FN(handle_linked, (pool<V1H<int, 4>>), 8, 11);
SCENARIO_FN(handle_linked_objects, (pool<V1H<Bytes32, 3>>), 8, 11);
SCENARIO_FN(v2_linked, (pool<V2L<Bytes32, 4>>), 8, 11);
SCENARIO_FN(v2_linked_small, (pool<V2L<char, 3>>), 8, 11);

// ---- many blocks: take all, give back in one of several orders, take all again
template <class P> static void many(Ctx& c)
{
    typedef typename P::X X; typedef Fixed<X, 0> F; F::fill(0xA5); Own<X> x(F::make());
    for(int round = 0; round < 2; round++)
    {
        std::vector<unsigned char*> p; std::vector<long> hs;
        for(unsigned i = 0; i < P::n; i++)
        {
            unsigned char* q = (unsigned char*)P::get(*x); CHECK(q, "alloc: nothing after %u of %u", i, (unsigned)P::n); memset(q, i & 255, P::bytes); p.push_back(q);
            if(i % 16 == 0) { unsigned l = P::left(*x); CHECK(l == P::n - i - 1, "count: %u left after %u", l, i + 1); }
        }
        CHECK(!P::get(*x), "alloc: more than %u blocks", (unsigned)P::n); CHECK(P::left(*x) == 0 && P::full(*x), "full: not after %u", (unsigned)P::n);
        for(unsigned i = 0; i < P::n; i++) { for(int k = 0; k < P::bytes; k++) CHECK(p[i][k] == (i & 255), "content: block %u overwritten", i); P::handles_ok(c, *x, p[i], hs); }
        std::sort(hs.begin(), hs.end()); CHECK(std::unique(hs.begin(), hs.end()) == hs.end(), "handle: shared by two blocks");
        int order = c.pick(4);
        for(unsigned i = 0; i < P::n; i++) { unsigned k = order == 0 ? i : order == 1 ? P::n - 1 - i : order == 2 ? (i % 2 ? P::n - 1 - i / 2 : i / 2) : (unsigned)((i * 7919ull) % P::n); if(order == 3 && P::n % 7919 == 0) k = i; P::put(*x, p[k]); }
        CHECK(P::left(*x) == P::n, "count: %u left after giving all %u back", P::left(*x), (unsigned)P::n); CHECK(F::intact(), "memory: written outside the pool"); c.observe(order);
    }
}
SCENARIO_FN(many_127, (many<Raw<8, 127>>), 1, 1);
SCENARIO_FN(many_128, (many<Raw<8, 128>>), 1, 1);
SCENARIO_FN(many_129, (many<Raw<8, 129>>), 1, 1);
SCENARIO_FN(many_300, (many<Raw<8, 300>>), 1, 1);
SCENARIO_FN(many_handles_254, (many<V1H<int, 254>>), 1, 1);
SCENARIO_FN(many_handles_255, (many<V1H<int, 255>>), 1, 1);
SCENARIO_FN(many_handles_256, (many<V1H<int, 256>>), 1, 1);
SCENARIO_FN(many_handles_257, (many<V1H<int, 257>>), 1, 1);
SCENARIO_FN(many_v2_300, (many<V2L<int, 300>>), 1, 1);

// ---- typed: objects are made and ended exactly once
typedef TrackedT<1> A;
template <class X, class Mk, class End> static void objects(Ctx& c, int cap, Mk mk, End end)
{
    typedef Fixed<X, 0> F; life.reset(); F::fill(0xA5);
    {
    Own<X> x(F::make()); std::vector<std::pair<A*, int>> held; int v = 1;
    for(int d = 0; ; d++)
    {
        CHECK(life.live.size() == held.size(), "lifetime: %zu objects alive, expected %zu", life.live.size(), held.size());
        std::string key; for(auto& h : held) { CHECK(h.first->v == h.second, "value: object holds %d, expected %d", h.first->v, h.second); key += std::to_string((char*)h.first - (char*)F::raw()) + ","; }
        c.flush(); c.observe(key);
        if(d == c.bound) break;
        int op = c.pick((int)held.size() + 1);
        if(op == 0) { c.log("make %d", v); A* p = mk(*x, v, (int)held.size() < cap); CHECK((p != nullptr) == ((int)held.size() < cap), "make: %s with %zu held", p ? "worked" : "refused", held.size()); if(p) held.push_back({p, v}); v++; }
        else { c.log("end %d", op - 1); end(*x, held[op - 1].first); held.erase(held.begin() + (op - 1)); }
    }
    while(!held.empty()) { end(*x, held.back().first); held.pop_back(); }
    }
    CHECK(life.live.empty(), "lifetime: objects left"); c.flush();
}
SCENARIO(typed, 7, 9) { objects<im::typed_pool<A, 3>>(c, 3, [](im::typed_pool<A, 3>& x, int v, bool) { return x.emplace(v); }, [](im::typed_pool<A, 3>& x, A* a) { x.erase(a); }); }
SCENARIO(typed_handles, 1, 1)
{
    typedef im::typed_pool<A, 3> X; life.reset(); Fixed<X, 0>::fill(0); Own<X> x(Fixed<X, 0>::make()); A* a[3];
    for(int i = 0; i < 3; i++) { a[i] = x->emplace(i); } for(int i = 0; i < 3; i++) { A* q = x->from_handle(x->to_handle(a[i])); CHECK(q == a[i] && q->v == i, "handle: another object"); }
    CHECK(X::max_blocks() == 3, "max_blocks"); c.observe(1); for(auto p : a) x->erase(p);
}
SCENARIO(typed_v1, 7, 9) { typedef xm::v1::memory_pool_1<A, 3> X; objects<X>(c, 3, [](X& x, int v, bool room) -> A* { if(!room) { A* p = x.allocate(); return p; } return &x.construct(v); }, [](X& x, A* a) { x.destroy(*a); }); }

// ---- storage of varying sizes, handed out by handle and tidied up in steps
template <unsigned N, unsigned H> static void varying(Ctx& c, const std::vector<int>& sizes)
{
    typedef xm::v2::virtual_memory<N, H> X; typedef Fixed<X, 3> F; F::fill(0xA5); Own<X> x(F::make());
    enum { least = 2 * sizeof(void*) }; struct Block { unsigned handle, size; unsigned char mark; }; std::vector<Block> held; unsigned char mark = 0;
    auto used = [&] { unsigned n = 0; for(auto& b : held) n += b.size; return n; };
    for(int d = 0;; d++)
    {
        unsigned pieces = 0, left = x->total_free(&pieces); CHECK(left == N - used() && x->total_free() == left, "varying: %u bytes free, expected %u", left, N - used());
        std::vector<std::pair<unsigned char*, unsigned>> at; std::string key = std::to_string((int)x->state()) + ":";
        for(auto& b : held)
        {
            CHECK(b.handle < H, "varying: handle %u", b.handle); unsigned char* p = x->handles[b.handle].data; CHECK(p >= x->storage && p + b.size <= x->storage + N, "varying: a block outside the storage");
            for(auto& o : at) CHECK(p + b.size <= o.first || o.first + o.second <= p, "varying: two blocks share bytes"); at.push_back({p, b.size});
            for(unsigned i = 0; i < b.size; i++) CHECK(p[i] == b.mark, "varying: a block's content changed (byte %u of %u)", i, b.size);
            key += std::to_string(p - x->storage) + "+" + std::to_string(b.size) + "h" + std::to_string(b.handle) + ",";
        }
        unsigned largest = 0, n = 0; key += "|"; for(auto* i = x->free_head; i; i = i->next) { n++; CHECK(n <= N, "varying: the free list never ends"); largest = std::max<unsigned>(largest, i->chunk_size); key += std::to_string((unsigned char*)i - x->storage) + "+" + std::to_string(i->chunk_size) + ",";
            for(auto& o : at) CHECK((unsigned char*)i + i->chunk_size <= o.first || o.first + o.second <= (unsigned char*)i, "varying: free storage overlaps a block"); }
        CHECK(n == pieces, "varying: %u pieces, expected %u", pieces, n); CHECK(F::intact(), "varying: wrote outside");
        if(x->state() == xm::v2::maintenance_mode::compact) key += "e" + std::to_string(x->compact_state.evaluating ? (unsigned char*)x->compact_state.evaluating - x->storage : -1) + "p" + std::to_string(x->compact_state.evaluating_prev ? (unsigned char*)x->compact_state.evaluating_prev - x->storage : -1);
        c.observe(key); if(d == c.bound || c.visited(key, c.bound - d)) return;
        int op = c.pick(2 + (int)held.size() + (int)sizes.size());
        if(op == 0) { c.log("maint"); x->maint(); }
        else if(op == 1)
        {
            // tidying again and again ends
            c.log("maint until done"); int i = 0; do { x->maint(); CHECK(++i < 1000, "varying: tidying never ends"); } while(x->state() != xm::v2::maintenance_mode::uninitialized);
        }
        else if(op < 2 + (int)held.size()) { auto b = held[op - 2]; c.log("free %u of %u", b.handle, b.size); x->free(b.handle); held.erase(held.begin() + (op - 2)); }
        else
        {
            unsigned want = sizes[op - 2 - held.size()], real = std::max<unsigned>(want, least); c.log("allocate %u", want); unsigned h = x->allocate(want);
            bool room = held.size() < H && largest >= real + least, exact = false; if(held.size() < H) for(auto* i = x->free_head; i; i = i->next) exact |= i->chunk_size == real;
            if(h == (unsigned)-1) { CHECK(!room && !exact, "varying: refused %u with %u in one piece and %zu held", want, largest, held.size()); }
            else { CHECK(h < H, "varying: handle %u", h); for(auto& b : held) CHECK(b.handle != h, "varying: handle %u given twice", h); mark += 17; memset(x->handles[h].data, mark, real); held.push_back({h, real, mark}); }
        }
    }
}
SCENARIO(varying_48, 7, 9) { varying<48, 2>(c, {10, 24, 32, 48}); }
SCENARIO(varying_96, 6, 8) { varying<96, 4>(c, {16, 21, 24, 40}); }
SCENARIO(varying_64_tight, 7, 9) { varying<64, 3>(c, {16, 32}); }
