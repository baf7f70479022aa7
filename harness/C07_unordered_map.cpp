// Property C07: an unordered map finds exactly the keys it holds, with their latest values.
#include <estd/functional.h>
#include <estd/string.h>
#include <estd/unordered_map.h>
#include <map>
#include <set>
#include "mc.h"
using namespace mc;

template <int M> struct HashMod { unsigned operator()(int k) const { return (unsigned)k % M; } };
struct HashTens { unsigned operator()(int k) const { return (unsigned)k / 100; } };

// placed on an exact heap block pre-filled with a pattern: the block's end is a red zone
template <class M> struct Heap
{
    void* mem; M* p;
    Heap(unsigned char fill) { mem = malloc(sizeof(M)); memset(mem, fill, sizeof(M)); p = new (mem) M; }
    ~Heap() { free(mem); }
};

static const unsigned char fills[] = {0x00, 0xFF, 0x01, 0xAA};

template <class M> static void agree(Ctx& c, M& m, const std::map<int, int>& ref, const std::vector<int>& keys)
{
    const M& cm = m;
    CHECK(m.size() == ref.size(), "size: %u, expected %zu", m.size(), ref.size());
    CHECK(m.empty() == ref.empty(), "empty: wrong with %zu keys", ref.size());
    for(int k : keys)
    {
        auto it = ref.find(k);
        bool held = it != ref.end();
        CHECK(m.contains(k) == held, "contains(%d): %d", k, (int)m.contains(k));
        CHECK(m.count(k) == (held ? 1u : 0u), "count(%d): %u", k, m.count(k));
        auto f = m.find(k); auto cf = cm.find(k);
        CHECK((f != m.end()) == held, "find(%d): %s", k, held ? "lost" : "not held, but found");
        CHECK((cf != cm.end()) == held, "const find(%d)", k);
        if(held)
        {
            CHECK(f->first == k && f->second == it->second, "find(%d): holds %d, expected %d", k, (int)f->second, it->second);
            CHECK((*cf).second == it->second, "const find(%d): value", k);
        }
    }
    std::map<int, int> walked; size_t n = 0;
    for(auto it = m.begin(); it != m.end(); ++it)
    {
        CHECK(++n <= ref.size(), "iteration: more elements than held");
        auto kv = *it;
        CHECK(walked.emplace(kv.first, kv.second).second, "iteration: key %d twice", kv.first);
    }
    CHECK(walked == ref, "iteration: not the held elements");
    n = 0;
    for(auto it = cm.begin(); it != cm.end(); ++it) ++n;
    CHECK(n == ref.size(), "const iteration: %zu of %zu", n, ref.size());
    // every key is reachable through its own bucket
    for(auto& kv : ref)
    {
        unsigned b = cm.bucket(kv.first); int hits = 0; unsigned len = 0;
        for(auto it = cm.begin(b); it != cm.end(b); ++it) { CHECK(++len <= ref.size(), "bucket iteration: too long"); CHECK(cm.bucket(it->first) == b, "bucket iteration: key %d is in another bucket", it->first); if(it->first == kv.first) { ++hits; CHECK(it->second == kv.second, "bucket iteration: value"); } }
        CHECK(hits == 1, "bucket iteration: key %d seen %d times", kv.first, hits);
        CHECK(cm.bucket_size(b) == len, "bucket_size: %u, walked %u", cm.bucket_size(b), len);
    }
    std::string s; for(auto& kv : ref) s += std::to_string(kv.first) + "=" + std::to_string(kv.second) + " ";
    c.observe(s);
}

template <class M> static void map_body(Ctx& c, const std::vector<int>& keys, unsigned N)
{
    Heap<M> h(c.of(fills)); M& m = *h.p; std::map<int, int> ref;
    CHECK(m.max_size() == N, "max_size: %u", m.max_size());
    agree(c, m, ref, keys);
    unsigned depth = M::bucket_depth; bool never_over = N % depth == 0; int toggle = 0;
    auto per_bucket = [&](int k) { unsigned n = 0; for(auto& kv : ref) if(m.bucket(kv.first) == m.bucket(k)) ++n; return n; };
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(std::string((const char*)h.mem, sizeof(M)) + char(toggle) + char(never_over), c.bound - d)) return;
        int k = c.of(keys), op = c.pick(9);
        bool held = ref.count(k); int v = k * 4 + toggle;
        bool must = ref.empty() || (never_over && per_bucket(k) < depth);
        auto inserted = [&](const char* what, std::pair<bool, bool> r, decltype(m.begin()) it, bool assigns)
        {
            bool ok = r.first;
            if(held)
            {
                if(!assigns) CHECK(!ok, "%s: key %d is held already, yet reported as inserted", what, k);
                CHECK(it->first == k, "%s: duplicate: iterator is not at the held key", what);
                if(assigns) ref[k] = v;
            }
            else if(ok) { CHECK(it->first == k && it->second == v, "%s: iterator is not at the new element", what); ref[k] = v; }
            else CHECK(!must, "%s: key %d refused although there is room", what, k);
            if(per_bucket(k) > depth) never_over = false;
        };
        switch(op)
        {
            case 0: { c.log("insert {%d,%d}", k, v); auto r = m.insert({k, v}); inserted("insert", {r.second, 0}, r.first, false); break; }
            case 1: if(toggle)
                    { c.log("emplace in pieces %d,%d", k, v); auto r = m.emplace(estd::piecewise_construct_t{}, estd::forward_as_tuple(k), estd::forward_as_tuple(v)); inserted("emplace", {r.second, 0}, r.first, false); break; }
                    { c.log("emplace %d,%d", k, v); auto r = m.emplace(k, v); inserted("emplace", {r.second, 0}, r.first, false); break; }
            case 2: { c.log("try_emplace %d,%d", k, v); auto r = m.try_emplace(k, v); inserted("try_emplace", {r.second, 0}, r.first, false); break; }
            case 3: { if(!held && !must) return; c.log("m[%d]=%d", k, v); m[k] = v; ref[k] = v; if(per_bucket(k) > depth) never_over = false; break; }
            case 4: { c.log("insert_or_assign %d,%d", k, v); auto r = m.insert_or_assign(k, v); inserted("insert_or_assign", {r.second, 0}, r.first, true); break; }
            case 5: { c.log("erase(%d)", k); unsigned n = m.erase(k); CHECK(n == (held ? 1u : 0u), "erase: %u keys", n); ref.erase(k); break; }
            case 6:
            {
                if(!held) return; c.log("erase(find(%d))", k);
                auto it = m.find(k); std::vector<int> rest; auto walk = it; for(++walk; walk != m.end(); ++walk) rest.push_back((*walk).first);
                auto next = m.erase(it); ref.erase(k);
                std::vector<int> rest2; for(; next != m.end(); ++next) rest2.push_back((*next).first);
                CHECK(rest == rest2, "erase(iterator): does not return the next element");
                break;
            }
            case 7:
            {
                if(!held) return; ref.erase(k);
                if(toggle) { c.log("erase_and_gc(find(%d))", k); m.erase_and_gc(m.find(k)); break; }
                c.log("erase_and_gc(%d within its bucket)", k); auto it = m.begin(m.bucket(k)); while(it->first != k) ++it; m.erase_and_gc(it); break;
            }
            case 8:
                if(k == keys[0]) { c.log("clear"); m.clear(); ref.clear(); }
                else { if(!held) return; c.log("gc_active(find(%d))", k); auto it = m.gc_active(m.find(k)); CHECK(it->first == k && it->second == ref[k], "gc_active: iterator is not at the element"); }
                break;
        }
        toggle ^= 1;
        agree(c, m, ref, keys);
    }
}

using estd::equal_to;
static void m8(Ctx& c) { map_body<estd::layer1::unordered_map<int, int, 8, HashMod<2>>>(c, {2, 4, 6, 1, 3}, 8); }
static void m6(Ctx& c) { map_body<estd::layer1::unordered_map<int, int, 6, HashMod<3>>>(c, {3, 6, 2, 5, 1}, 6); }
static void m5(Ctx& c) { map_body<estd::layer1::unordered_map<int, int, 5, HashMod<5>>>(c, {5, 10, 4, 9, 3, 1}, 5); }
static void m4(Ctx& c) { map_body<estd::layer1::unordered_map<int, int, 4, HashMod<1>>>(c, {1, 2, 3, 4, 5}, 4); }
static void m132(Ctx& c) { map_body<estd::layer1::unordered_map<int, int, 132, HashTens>>(c, {1700, 1701, 1702, 3200, 3201, 100}, 132); }
static void m1030(Ctx& c) { map_body<estd::layer1::unordered_map<int, int, 1030, HashTens>>(c, {7000, 7001, 7002, 32800, 32801}, 1030); }
static void m6o(Ctx& c) { map_body<estd::layer1::unordered_map<int, int, 6, HashMod<3>>>(c, {3, 6, 9, 12, 1}, 6); }
static void m8o(Ctx& c) { map_body<estd::layer1::unordered_map<int, int, 8, HashMod<4>>>(c, {4, 8, 12, 1, 5, 9}, 8); }
static void m16(Ctx& c) { map_body<estd::layer1::unordered_map<int, int, 16>>(c, {4, 8, 1, 5, 12, 3}, 16); }
SCENARIO_FN_SHARDED(two_buckets, m8, 6, 8, 4, 8);
SCENARIO_FN_SHARDED(overlapping_buckets, m6, 6, 8, 4, 8);
SCENARIO_FN_SHARDED(tight, m5, 5, 7, 4, 8);
SCENARIO_FN_SHARDED(spilling_bucket, m6o, 7, 9, 4, 8);
SCENARIO_FN_SHARDED(spilling_buckets, m8o, 5, 8, 4, 8);
SCENARIO_FN_SHARDED(one_bucket, m4, 6, 9, 4, 8);
SCENARIO_FN_SHARDED(high_buckets, m132, 4, 6, 4, 8);
SCENARIO_FN_SHARDED(higher_buckets, m1030, 4, 5, 4, 8);
// values of many bytes, all of which must stay together
struct Big { int v[9]; Big() {} Big(int x) { for(int i = 0; i < 9; i++) v[i] = x + i; } operator int() const { for(int i = 0; i < 9; i++) if(v[i] != v[0] + i) return -1; return v[0]; } };
struct Alone { char a[5]; int v; char b[5]; Alone() {} Alone(int x) : v(x) { memset(a, x, 5); memset(b, x, 5); } operator int() const { for(int i = 0; i < 5; i++) if(a[i] != (char)v || b[i] != (char)v) return -1; return v; } };
static void m8big(Ctx& c) { map_body<estd::layer1::unordered_map<int, Big, 8, HashMod<2>>>(c, {2, 4, 6, 1}, 8); }
static void m6mid(Ctx& c) { map_body<estd::layer1::unordered_map<int, Alone, 6, HashMod<3>>>(c, {3, 6, 9, 1}, 6); }
static void m8long(Ctx& c) { map_body<estd::layer1::unordered_map<long, long long, 8, HashMod<4>>>(c, {4, 8, 1, 5}, 8); }
SCENARIO_FN_SHARDED(big_values, m8big, 5, 7, 4, 8);
SCENARIO_FN_SHARDED(mixed_values, m6mid, 5, 7, 4, 8);
SCENARIO_FN_SHARDED(wide_keys, m8long, 5, 7, 4, 8);
SCENARIO_FN_SHARDED(default_hash, m16, 4, 6, 4, 8);

// The map over borrowed storage
SCENARIO(borrowed_storage, 5, 7)
{
    typedef estd::layer2::unordered_map<int, int, 6, HashMod<3>> M;
    typedef estd::internal::unordered_map_traits_control<int, int>::control_type slot;
    auto* mem = (slot*)malloc(sizeof(slot) * 6); memset((void*)mem, c.of(fills), sizeof(slot) * 6);
    struct Free { void* p; ~Free() { free(p); } } fr{mem};
    typedef slot slots[6];
    M m(*(slots*)mem); std::map<int, int> ref; std::vector<int> keys{3, 6, 9, 2, 1};
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(std::string((const char*)mem, sizeof(slot) * 6), c.bound - d)) return;
        int k = c.of(keys);
        if(c.flip()) { c.log("insert %d", k); if(m.insert({k, k + 1}).second) { CHECK(!ref.count(k), "insert: duplicate"); ref[k] = k + 1; } else CHECK(!ref.empty(), "insert: refused"); }
        else { c.log("erase %d", k); CHECK(m.erase(k) == ref.erase(k), "erase: count"); }
        agree(c, m, ref, keys);
    }
}

// The reserved "no key" value is never held
SCENARIO(null_key, 3, 4)
{
    typedef estd::layer1::unordered_map<int, int, 8, HashMod<2>> M; Heap<M> h(c.of(fills)); M& m = *h.p; std::map<int, int> ref;
    for(int d = 0; d < c.bound; d++)
        switch(c.pick(5))
        {
            case 0: CHECK(!m.insert({0, 3}).second, "null key: inserted"); break;
            case 1: CHECK(!m.try_emplace(0, 3).second, "null key: inserted"); break;
            case 2: CHECK(m.erase(0) == 0, "null key: erased"); break;
            case 3: CHECK(m.insert({2, 9}).second == !ref.count(2), "null key: others"); ref[2] = 9; break;
            case 4: CHECK(m.erase(2) == ref.erase(2), "null key: others"); break;
        }
    agree(c, m, ref, {0, 2, 4});
}

// optional-valued keys: zero is an ordinary key
SCENARIO(optional_keys, 4, 6)
{
    typedef estd::layer1::optional<uint16_t, 0xFFFF> K;
    typedef estd::layer1::unordered_map<K, int, 8> M; Heap<M> h(c.of(fills)); M& m = *h.p; std::map<int, int> ref;
    static const uint16_t ks[] = {0, 1, 2, 4};
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(std::string((const char*)h.mem, sizeof(M)), c.bound - d)) return;
        uint16_t k = c.of(ks);
        if(c.flip()) { auto r = m.insert({K(k), k + 5}); if(r.second) { CHECK(!ref.count(k), "optional key: duplicate"); ref[k] = k + 5; } else CHECK(ref.count(k), "optional key: refused"); }
        else CHECK(m.erase(K(k)) == ref.erase(k), "optional key: erase");
        CHECK(m.size() == ref.size(), "optional key: size");
        for(uint16_t q : ks) { CHECK(m.contains(K(q)) == (ref.count(q) != 0), "optional key: contains %d", q); if(ref.count(q)) CHECK(m.find(K(q))->second == ref[q], "optional key: value"); }
    }
}

// Two maps hold the same keys <=> they compare equal, however they came about
SCENARIO(equality, 3, 4)
{
    typedef estd::layer1::unordered_map<int, int, 8, HashMod<2>> M;
    Heap<M> a(c.of(fills)), b(0x55); std::map<int, int> ra, rb; static const int ks[] = {2, 4, 1};
    auto go = [&](M& m, std::map<int, int>& r) { for(int d = 0; d < c.bound; d++) { int k = c.of(ks); if(c.flip()) { m.insert({k, k}); r[k] = k; } else { m.erase(k); r.erase(k); } } };
    go(*a.p, ra); if(c.visited("", 0) && false) return; go(*b.p, rb);
    CHECK((*a.p == *b.p) == (ra == rb), "equality: wrong"); CHECK(*a.p == *a.p, "equality: self");
}

// Duplicate keys, when asked for, are kept side by side
SCENARIO(duplicates, 5, 6)
{
    typedef estd::layer1::unordered_map<int, int, 8, HashMod<2>> M; Heap<M> h(c.of(fills)); M& m = *h.p; std::multimap<int, int> ref; static const int ks[] = {2, 4, 1};
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(std::string((const char*)h.mem, sizeof(M)), c.bound - d)) return;
        int k = c.of(ks); unsigned b = m.bucket(k), n = 0; for(auto& kv : ref) if(m.bucket(kv.first) == b) ++n;
        if(c.flip()) { bool ok = m.insert({k, d}, true).second; CHECK(ok || n >= M::bucket_depth, "duplicates: refused"); if(ok) ref.emplace(k, d); }
        else { unsigned r = m.erase(k); CHECK(r == (ref.count(k) ? 1u : 0u), "duplicates: erase"); if(r) { // one of them is gone
                std::multiset<int> left; for(auto it = m.begin(b); it != m.end(b); ++it) if(it->first == k) left.insert(it->second);
                auto rg = ref.equal_range(k); auto victim = rg.second; for(auto it = rg.first; it != rg.second; ++it) { auto f = left.find(it->second); if(f == left.end()) { CHECK(victim == rg.second, "duplicates: two gone"); victim = it; } else left.erase(f); }
                CHECK(victim != rg.second && left.empty(), "duplicates: wrong survivors"); ref.erase(victim); } }
        for(int q : ks) CHECK(m.count(q) == ref.count(q), "duplicates: count(%d) is %u, expected %zu", q, m.count(q), ref.count(q));
        CHECK(m.size() == ref.size(), "duplicates: size");
    }
}

// Values with destructors: erased exactly once, never touched when not held
SCENARIO(value_lifetimes, 5, 6)
{
    typedef estd::layer1::unordered_map<int, Tracked, 8, HashMod<2>> M; life.reset(); Heap<M> h(c.of(fills)); M& m = *h.p; std::map<int, int> ref; static const int ks[] = {2, 4, 1};
    for(int d = 0; d < c.bound; d++)
    {
        int k = c.of(ks);
        switch(c.pick(5))
        {
            case 0: { c.log("emplace %d", k); if(m.emplace(k, d).second) ref[k] = d; break; }
            case 1: { c.log("try_emplace %d", k); if(m.try_emplace(k, d).second) ref[k] = d; break; }
            case 2: c.log("erase %d", k); m.erase(k); ref.erase(k); break;
            case 3: if(k != 2) return; c.log("clear"); m.clear(); ref.clear(); break;
            case 4: c.log("insert_or_assign %d", k); m.insert_or_assign(k, Tracked(d)); ref[k] = d; break;
        }
        c.flush();
        CHECK(life.live.size() == ref.size(), "value lifetimes: %zu values alive, %zu held", life.live.size(), ref.size());
        for(auto& kv : ref) CHECK(m.find(kv.first)->second.v == kv.second, "value lifetimes: value of %d", kv.first);
    }
    life.reset();
}

// hundreds of keys: positions, bucket numbers and counts beyond one byte
struct HashId { unsigned operator()(int k) const { return (unsigned)k; } };
template <unsigned N> static void many(Ctx& c)
{
    typedef estd::layer1::unordered_map<int, int, N, HashId> M; Heap<M> h(c.of(fills)); M& m = *h.p; std::map<int, int> ref;
    const bool exact = N % M::bucket_depth == 0;
    int order = c.pick(4), gone = c.pick(5), how = c.pick(3), again = c.pick(2);
    c.log("%u slots: fill in order %d, erase pattern %d by %s, then refill%s", N, order, gone, how == 0 ? "key" : how == 1 ? "iterator" : "iterator, collecting", again ? " after collecting" : "");
    const std::string id = std::to_string(N) + "/" + std::to_string(order) + std::to_string(gone) + std::to_string(how) + std::to_string(again); c.state(id);
    auto nth = [&](int i) { return 1 + (order == 0 ? i : order == 1 ? (int)N - 1 - i : order == 2 ? (i * 7) % (int)N : i ^ 1); };
    auto all = [&](const char* when)
    {
        CHECK(m.size() == ref.size() && m.empty() == ref.empty(), "size: %u, expected %zu (%s)", m.size(), ref.size(), when);
        for(int k = 0; k <= (int)N + 2; k++)
        {
            auto it = ref.find(k); auto f = m.find(k);
            CHECK((f != m.end()) == (it != ref.end()), "find(%d): %s (%s)", k, it != ref.end() ? "lost" : "not held, but found", when);
            if(it != ref.end()) CHECK(f->second == it->second, "find(%d): holds %d, expected %d (%s)", k, f->second, it->second, when);
            CHECK(m.count(k) == ref.count(k), "count(%d): %u (%s)", k, m.count(k), when);
        }
        size_t n = 0; std::map<int, int> walked;
        for(auto it = m.begin(); it != m.end(); ++it) { CHECK(++n <= ref.size(), "iteration: more elements than held (%s)", when); walked[(*it).first] = (*it).second; }
        CHECK(walked == ref, "iteration: not the held elements (%s)", when);
    };
    auto put = [&](int k, int v)
    {
        bool held = ref.count(k); auto r = m.insert({k, v});
        CHECK(r.second ? !held : held || !exact, "insert: key %d %s", k, r.second ? "inserted twice" : "refused although there is room");
        if(r.second) ref[k] = v;
    };
    for(int i = 0; i < (int)N; i++) put(nth(i), i);
    if(N % 7 != 0 && N % 2 == 0 && exact) CHECK(ref.size() == N, "fill: %zu of %u keys held", ref.size(), N);
    all("filled");
    std::vector<int> held; for(auto& kv : ref) held.push_back(kv.first);
    for(int k : held)
    {
        bool out = gone == 0 ? k % 2 : gone == 1 ? k % 3 == 0 : gone == 2 ? k < (int)N / 2 : gone == 3 ? k > 250 : true;
        if(!out) continue;
        if(how == 0) { CHECK(m.erase(k) == 1, "erase(%d): not found", k); } else if(how == 1) m.erase(m.find(k)); else m.erase_and_gc(m.find(k));
        ref.erase(k);
    }
    all("erased");
    if(again) for(auto& kv : ref) { auto it = m.gc_active(m.find(kv.first)); CHECK(it->first == kv.first, "gc_active: iterator is not at key %d", kv.first); }
    all("collected");
    for(int i = 0; i < (int)N; i++) put(nth(i), 10000 + i);
    all("refilled");
    for(int i = 0; i < (int)N; i += 5) { bool was = ref.count(nth(i)); auto r = m.insert_or_assign(nth(i), i); if(was || r.second) ref[nth(i)] = i; }
    all("reassigned");
    m.clear(); ref.clear(); all("cleared");
    c.observe(id);
}
SCENARIO_FN(many_128, many<128>, 1, 1);
SCENARIO_FN(many_256, many<256>, 1, 1);
SCENARIO_FN(many_260, many<260>, 1, 1);
SCENARIO_FN(many_300, many<300>, 1, 1);
SCENARIO_FN(many_255, many<255>, 1, 1);
SCENARIO_FN(many_1032, many<1032>, 1, 1);
