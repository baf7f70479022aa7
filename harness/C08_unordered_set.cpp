// Property C08: an unordered set holds exactly the keys inserted and not erased.
// ALSO: -std=gnu++20
#include <estd/functional.h>
#include <estd/string.h>
#include <estd/unordered_set.h>
#include <set>
#include "mc.h"
using namespace mc;

template <int M> struct HashMod { unsigned operator()(int k) const { return (unsigned)k % M; } };
struct HashTens { unsigned operator()(int k) const { return (unsigned)k / 100; } };
static const unsigned char fills[] = {0x00, 0xFF, 0x01, 0xAA};

template <class S> struct Heap
{
    void* mem; S* p;
    Heap(unsigned char fill) { mem = malloc(sizeof(S)); memset(mem, fill, sizeof(S)); p = new (mem) S; }
    ~Heap() { free(mem); }
};

template <class S> static void agree(Ctx& c, S& s, const std::set<int>& ref, const std::vector<int>& keys)
{
    const S& cs = s;
    CHECK(s.size() == ref.size(), "size: %u, expected %zu", s.size(), ref.size());
    CHECK(s.empty() == ref.empty(), "empty: wrong");
    for(int k : keys)
    {
        CHECK(cs.contains(k) == (ref.count(k) != 0), "contains(%d): wrong", k);
        CHECK(cs.count(k) == ref.count(k), "count(%d): %u", k, cs.count(k));
    }
    std::set<int> w; size_t n = 0;
    for(auto it = s.begin(); it != s.end(); ++it) { CHECK(++n <= ref.size(), "iteration: too many"); CHECK(w.insert(*it).second, "iteration: %d twice", *it); }
    CHECK(w == ref, "iteration: not the held keys");
    for(auto it = cs.begin(); it != cs.end(); ++it) --n;
    CHECK(n == 0, "const iteration: wrong");
    for(int k : ref)
    {
        unsigned b = cs.bucket(k); int hits = 0; size_t len = 0;
        for(auto it = cs.begin(b); it != cs.end(b); ++it) { CHECK(++len <= ref.size(), "bucket iteration: too long"); CHECK(cs.bucket(*it) == b, "bucket iteration: %d is in another bucket", *it); hits += *it == k; }
        CHECK(hits == 1, "bucket iteration: key %d seen %d times", k, hits);
    }
    c.observe(show_seq(ref));
}

template <class S> static void set_body(Ctx& c, const std::vector<int>& keys, unsigned N)
{
    Heap<S> h(c.of(fills)); S& s = *h.p; std::set<int> ref; bool never_over = N % S::bucket_depth == 0;
    CHECK(s.max_size() == N, "max_size: %u", s.max_size());
    agree(c, s, ref, keys);
    auto per_bucket = [&](int k) { unsigned n = 0; for(int q : ref) if(s.bucket(q) == s.bucket(k)) ++n; return n; };
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(std::string((const char*)h.mem, sizeof(S)) + char(never_over), c.bound - d)) return;
        int k = c.of(keys); bool held = ref.count(k), must = ref.empty() || (never_over && per_bucket(k) < S::bucket_depth);
        if(c.flip())
        {
            c.log("insert %d", k);
            auto r = s.insert(k);
            if(held) { CHECK(!r.second, "insert: %d inserted twice", k); CHECK(*r.first == k, "insert: duplicate: iterator"); }
            else if(r.second) { CHECK(*r.first == k, "insert: iterator"); ref.insert(k); }
            else CHECK(!must, "insert: %d refused although there is room", k);
            if(per_bucket(k) > S::bucket_depth) never_over = false;
        }
        else { c.log("erase %d", k); auto n = s.erase(k); CHECK(n == (held ? 1u : 0u), "erase(%d): %u", k, n); ref.erase(k); }
        agree(c, s, ref, keys);
    }
}
static void s8(Ctx& c) { set_body<estd::layer1::unordered_set<int, 8, HashMod<2>>>(c, {2, 4, 6, 8, 10, 1, 3}, 8); }
static void s6(Ctx& c) { set_body<estd::layer1::unordered_set<int, 6, HashMod<3>>>(c, {3, 6, 9, 2, 5, 1}, 6); }
static void s5(Ctx& c) { set_body<estd::layer1::unordered_set<int, 5, HashMod<5>>>(c, {5, 10, 4, 9, 3, 1, 2}, 5); }
static void s4(Ctx& c) { set_body<estd::layer1::unordered_set<int, 4, HashMod<1>>>(c, {1, 2, 3, 4, 5}, 4); }
static void s1(Ctx& c) { set_body<estd::layer1::unordered_set<int, 1, HashMod<1>>>(c, {1, 2}, 1); }
static void s132(Ctx& c) { set_body<estd::layer1::unordered_set<int, 132, HashTens>>(c, {1700, 1701, 1702, 3200, 3201, 3202, 100}, 132); }
static void s16(Ctx& c) { set_body<estd::layer1::unordered_set<int, 16>>(c, {4, 8, 12, 1, 5, 3}, 16); }
SCENARIO_FN_SHARDED(two_buckets, s8, 9, 12, 4, 8);
SCENARIO_FN_SHARDED(overlapping_buckets, s6, 9, 12, 4, 8);
SCENARIO_FN_SHARDED(tight, s5, 9, 12, 4, 8);
SCENARIO_FN_SHARDED(one_bucket, s4, 9, 12, 4, 8);
SCENARIO_FN(single_slot, s1, 9, 12);
SCENARIO_FN_SHARDED(high_buckets, s132, 7, 9, 4, 8);
SCENARIO_FN_SHARDED(default_hash, s16, 7, 9, 4, 8);

SCENARIO(null_key, 3, 4)
{
    typedef estd::layer1::unordered_set<int, 8, HashMod<2>> S; Heap<S> h(c.of(fills)); S& s = *h.p; std::set<int> ref;
    for(int d = 0; d < c.bound; d++)
        switch(c.pick(4))
        {
            case 0: CHECK(!s.insert(0).second, "null key: inserted"); break;
            case 1: CHECK(s.erase(0) == 0, "null key: erased"); break;
            case 2: CHECK(s.insert(2).second == !ref.count(2), "null key: others"); ref.insert(2); break;
            case 3: CHECK(s.erase(2) == ref.erase(2), "null key: others"); break;
        }
    agree(c, s, ref, {0, 2, 4});
}

SCENARIO_SHARDED(equality, 4, 5, 4, 8)
{
    typedef estd::layer1::unordered_set<int, 8, HashMod<2>> S;
    Heap<S> a(c.of(fills)), b(0x55); std::set<int> ra, rb; static const int ks[] = {2, 4, 1};
    auto go = [&](S& s, std::set<int>& r) { for(int d = 0; d < c.bound; d++) { int k = c.of(ks); if(c.flip()) { s.insert(k); r.insert(k); } else { s.erase(k); r.erase(k); } } };
    go(*a.p, ra);
    if(c.visited(std::string((const char*)a.mem, sizeof(S)), 1)) return;
    go(*b.p, rb);
    CHECK((*a.p == *b.p) == (ra == rb), "equality: %d for %s and %s", (int)(*a.p == *b.p), show_seq(ra).c_str(), show_seq(rb).c_str());
    CHECK(*a.p == *a.p, "equality: self");
    c.observe(show_seq(ra) + show_seq(rb));
}

// hundreds of keys: positions, bucket numbers and counts beyond one byte
struct HashId { unsigned operator()(int k) const { return (unsigned)k; } };
template <unsigned N> static void many(Ctx& c)
{
    typedef estd::layer1::unordered_set<int, N, HashId> S; Heap<S> h(c.of(fills)); S& s = *h.p; std::set<int> ref;
    const bool exact = N % S::bucket_depth == 0;
    int order = c.pick(4), gone = c.pick(5);
    c.log("%u slots: fill in order %d, erase pattern %d, then refill", N, order, gone);
    const std::string id = std::to_string(N) + "/" + std::to_string(order) + std::to_string(gone); c.state(id);
    auto nth = [&](int i) { return 1 + (order == 0 ? i : order == 1 ? (int)N - 1 - i : order == 2 ? (i * 7) % (int)N : i ^ 1); };
    auto all = [&](const char* when)
    {
        CHECK(s.size() == ref.size() && s.empty() == ref.empty(), "size: %u, expected %zu (%s)", (unsigned)s.size(), ref.size(), when);
        for(int k = 0; k <= (int)N + 2; k++)
        {
            bool held = ref.count(k);
            CHECK(s.contains(k) == held && s.count(k) == (held ? 1u : 0u), "count(%d): %u (%s)", k, (unsigned)s.count(k), when);
        }
        size_t n = 0; std::set<int> walked;
        for(auto it = s.begin(); it != s.end(); ++it) { CHECK(++n <= ref.size(), "iteration: more elements than held (%s)", when); walked.insert(*it); }
        CHECK(walked == ref, "iteration: not the held elements (%s)", when);
    };
    auto put = [&](int k)
    {
        bool held = ref.count(k), ok = s.insert(k).second;
        CHECK(ok ? !held : held || !exact, "insert: key %d %s", k, ok ? "inserted twice" : "refused although there is room");
        if(ok) ref.insert(k);
    };
    for(int i = 0; i < (int)N; i++) put(nth(i));
    all("filled");
    std::vector<int> held(ref.begin(), ref.end());
    for(int k : held)
    {
        bool out = gone == 0 ? k % 2 : gone == 1 ? k % 3 == 0 : gone == 2 ? k < (int)N / 2 : gone == 3 ? k > 250 : true;
        if(!out) continue;
        CHECK(s.erase(k) == 1, "erase(%d): not found", k);
        ref.erase(k);
    }
    all("erased");
    for(int i = 0; i < (int)N; i++) put(nth(i));
    all("refilled");
    c.observe(id);
}
SCENARIO_FN(many_128, many<128>, 1, 1);
SCENARIO_FN(many_255, many<255>, 1, 1);
SCENARIO_FN(many_256, many<256>, 1, 1);
SCENARIO_FN(many_260, many<260>, 1, 1);
SCENARIO_FN(many_300, many<300>, 1, 1);
SCENARIO_FN(many_1032, many<1032>, 1, 1);

// a copy has the keys of the original, and a life of its own
template <class S> static void copy_body(Ctx& c, const std::vector<int>& keys)
{
    Heap<S> a(0xAA), b(0x55); S* s[2] = {a.p, b.p}; std::set<int> ref[2];
    for(int d = 0;; d++)
    {
        for(int i = 0; i < 2; i++) agree(c, *s[i], ref[i], keys);
        CHECK((*s[0] == *s[1]) == (ref[0] == ref[1]), "equality: %d for %s and %s", (int)(*s[0] == *s[1]), show_seq(ref[0]).c_str(), show_seq(ref[1]).c_str());
        if(d == c.bound || c.visited(std::string((const char*)s[0], sizeof(S)) + std::string((const char*)s[1], sizeof(S)), c.bound - d)) return;
        int i = c.flip();
        switch(c.pick(5))
        {
            case 0: { int k = c.of(keys); c.log("insert %d in %d", k, i); if(s[i]->insert(k).second) { CHECK(!ref[i].count(k), "insert: twice"); ref[i].insert(k); } else CHECK(ref[i].count(k) || ref[i].size() >= 2, "insert: refused"); break; }
            case 1: { int k = c.of(keys); c.log("erase %d of %d", k, i); CHECK(s[i]->erase(k) == ref[i].erase(k), "erase: wrong count"); break; }
            case 2: { c.log("assign the other to %d", i); *s[i] = *s[!i]; ref[i] = ref[!i]; break; }
            case 3: { c.log("%d made as a copy", i); memset((void*)s[i], 0x33, sizeof(S)); new (s[i]) S(*s[!i]); ref[i] = ref[!i]; break; }
            case 4: { c.log("assign %d to itself", i); *s[i] = *(S* volatile)s[i]; break; }
        }
    }
}
static void copy6(Ctx& c) { copy_body<estd::layer1::unordered_set<int, 6, HashMod<3>>>(c, {3, 6, 2, 1}); }
static void copy4(Ctx& c) { copy_body<estd::layer1::unordered_set<int, 4, HashMod<1>>>(c, {1, 2, 3, 4}); }
SCENARIO_FN(copies_buckets, copy6, 6, 8);
SCENARIO_FN(copies_one_bucket, copy4, 6, 8);
