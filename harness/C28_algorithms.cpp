// Property C28: generic algorithms do exactly their job on a range.
// ALSO: DEVICE
#include <cassert>
#include <limits>
#include <estd/algorithm.h>
#include <estd/numeric.h>
#include <estd/iterator.h>
#include <algorithm>
#include <numeric>
#include <list>
#include <forward_list>
#include <memory>
#include "mc.h"
using namespace mc;

// an element with a key, by which alone it is compared, and an identity
struct It
{
    int key = -1, id = -1;
    It() = default;
    It(int k, int i) : key(k), id(i) {}
    bool operator==(const It& o) const { return key == o.key; }
    bool operator!=(const It& o) const { return key != o.key; }
    bool operator<(const It& o) const { return key < o.key; }
    bool operator>(const It& o) const { return o.key < key; }
};
static std::string show_items(const std::vector<It>& v) { std::string s = "["; for(auto& e : v) s += (s.size() > 1 ? " " : "") + std::to_string(e.key) + "#" + std::to_string(e.id); return s + "]"; }
static bool same(const std::vector<It>& a, const std::vector<It>& b)
{
    if(a.size() != b.size()) return false;
    for(size_t i = 0; i < a.size(); i++) if(a[i].key != b[i].key || a[i].id != b[i].id) return false;
    return true;
}
// ranges with iterators of exactly one strength, over separately allocated nodes or one block; past the end is not readable
template <class Cat> struct Rng
{
    std::vector<It*> nodes; // one allocation each, so that ASan sees any access to what is not there
    template <class I> Rng(I b, I e) { for(; b != e; ++b) nodes.push_back(new It(*b)); }
    ~Rng() { for(auto p : nodes) delete p; }
    struct iterator
    {
        typedef Cat iterator_category; typedef It value_type; typedef std::ptrdiff_t difference_type; typedef It* pointer; typedef It& reference;
        Rng* r = nullptr; int i = 0;
        It& operator*() const { if(i < 0 || i >= (int)r->nodes.size()) mc::current->fail("outside: element %d of %zu was touched", i, r->nodes.size()); return *r->nodes[i]; }
        It* operator->() const { return &**this; }
        iterator& operator++() { if(i >= (int)r->nodes.size()) mc::current->fail("outside: moved past the end"); ++i; return *this; }
        iterator operator++(int) { auto t = *this; ++*this; return t; }
        template <class C2 = Cat, class = std::enable_if_t<std::is_base_of<std::bidirectional_iterator_tag, C2>::value>> iterator& operator--() { if(i <= 0) mc::current->fail("outside: moved before the beginning"); --i; return *this; }
        template <class C2 = Cat, class = std::enable_if_t<std::is_base_of<std::bidirectional_iterator_tag, C2>::value>> iterator operator--(int) { auto t = *this; --*this; return t; }
        bool operator==(const iterator& o) const { return r == o.r && i == o.i; }
        bool operator!=(const iterator& o) const { return !(*this == o); }
    };
    iterator begin() { return { this, 0 }; }
    iterator end() { return { this, (int)nodes.size() }; }
    iterator nth(int i) { return { this, i }; }
};
struct Blk // one block, plain pointers
{
    int n; It* p;
    template <class I> Blk(I b, I e) : n((int)std::distance(b, e)), p((It*)malloc(n ? n * sizeof(It) : 1)) { std::copy(b, e, p); }
    ~Blk() { free(p); }
    It* begin() { return p; }
    It* end() { return p + n; }
};
typedef Rng<std::bidirectional_iterator_tag> Bidir;
typedef Rng<std::forward_iterator_tag> Fwd;
template <class R> static std::vector<It> vec(R& r) { return std::vector<It>(r.begin(), r.end()); }
template <class R, class I> static long at(R& r, I i) { long n = 0; for(auto j = r.begin(); j != r.end(); ++j, ++n) if(j == i) return n; return i == r.end() ? n : -99; }

static std::vector<It> items(Ctx& c, int maxn, int keys, int base = 0)
{
    std::vector<It> v; int n = c.pick(maxn + 1);
    for(int i = 0; i < n; i++) v.push_back(It(c.pick(keys), base + i));
    return v;
}
struct ByKeyDesc { bool operator()(const It& a, const It& b) const { return a.key > b.key; } };
struct HalfEq { bool operator()(const It& a, const It& b) const { return a.key / 2 == b.key / 2; } };
// not symmetric, so the order of the arguments matters
struct Rel { bool operator()(const It& a, const It& b) const { return a.key + 1 == b.key; } };

template <class R> static void reading(Ctx& c, int maxn, int keys)
{
    auto m = items(c, maxn, keys);
    R r(m.begin(), m.end());
    auto was = show_items(m);
    auto B = [&] { return r.begin(); }; auto E = [&] { return r.end(); };
    auto mb = m.begin(), me = m.end();
    switch(c.pick(8))
    {
        case 0:
        {
            auto d = ByKeyDesc(); auto l = [](const It& a, const It& b) { return a.key < b.key; };
            long g = at(r, estd::min_element(B(), E(), l)), w = std::min_element(mb, me, l) - mb;
            CHECK(g == w, "min_element: %s gives position %ld, expected %ld", was.c_str(), g, w);
            g = at(r, estd::min_element(B(), E(), d)); w = std::min_element(mb, me, d) - mb;
            CHECK(g == w, "min_element: %s by descending key gives position %ld, expected %ld", was.c_str(), g, w);
            g = at(r, estd::max_element(B(), E(), l)); w = std::max_element(mb, me, l) - mb;
            CHECK(g == w, "max_element: %s gives position %ld, expected %ld", was.c_str(), g, w);
            g = at(r, estd::max_element(B(), E(), d)); w = std::max_element(mb, me, d) - mb;
            CHECK(g == w, "max_element: %s by descending key gives position %ld, expected %ld", was.c_str(), g, w);
            break;
        }
        case 1:
        {
            int k = c.pick(keys + 1); auto p = [k](const It& e) { return e.key == k; };
            long g = at(r, estd::find_if(B(), E(), p)), w = std::find_if(mb, me, p) - mb;
            CHECK(g == w, "find_if: %s key %d at %ld, expected %ld", was.c_str(), k, g, w);
            break;
        }
        case 2: case 3:
        {
            int how = c.pick(2);
            auto s = items(c, how == 0 ? 3 : 3, keys, 10); R s2(s.begin(), s.end());
            long g, w;
            if(how == 0) { g = at(r, estd::find_first_of(B(), E(), s2.begin(), s2.end())); w = std::find_first_of(mb, me, s.begin(), s.end()) - mb; }
            else { g = at(r, estd::find_first_of(B(), E(), s2.begin(), s2.end(), Rel())); w = std::find_first_of(mb, me, s.begin(), s.end(), Rel()) - mb; }
            CHECK(g == w, "find_first_of: any of %s in %s at %ld, expected %ld", show_items(s).c_str(), was.c_str(), g, w);
            break;
        }
        case 4: case 5:
        {
            auto s = items(c, 3, keys, 10); R s2(s.begin(), s.end());
            long g, w; int how = c.pick(3);
            if(how == 0) { auto eq = [](const It& a, const It& b) { return a.key == b.key; }; g = at(r, estd::search(B(), E(), s2.begin(), s2.end(), eq)); w = std::search(mb, me, s.begin(), s.end(), eq) - mb; }
            else if(how == 1) { g = at(r, estd::search(B(), E(), s2.begin(), s2.end(), HalfEq())); w = std::search(mb, me, s.begin(), s.end(), HalfEq()) - mb; }
            else { g = at(r, estd::search(B(), E(), s2.begin(), s2.end(), Rel())); w = std::search(mb, me, s.begin(), s.end(), Rel()) - mb; }
            CHECK(g == w, "search: %s in %s at %ld, expected %ld", show_items(s).c_str(), was.c_str(), g, w);
            break;
        }
        case 6:
        {
            // the second range is as long or longer
            auto s = m; int extra = c.pick(2); for(int i = 0; i < extra; i++) s.push_back(It(c.pick(keys), 20 + i));
            if(!m.empty()) { int at_ = c.pick((int)m.size()); s[at_].key = c.pick(keys); }
            for(size_t i = 0; i < s.size(); i++) s[i].id = 30 + (int)i;
            R s2(s.begin(), s.end());
            bool g = estd::equal(B(), E(), s2.begin()), w = std::equal(mb, me, s.begin());
            CHECK(g == w, "equal: %s and %s: %d, expected %d", was.c_str(), show_items(s).c_str(), g, w);
            auto mm = estd::mismatch(B(), E(), s2.begin()); auto sm = std::mismatch(mb, me, s.begin());
            CHECK(at(r, mm.first) == sm.first - mb && at(s2, mm.second) == sm.second - s.begin(), "mismatch: %s and %s differ at %ld/%ld, expected %ld/%ld", was.c_str(), show_items(s).c_str(), at(r, mm.first), at(s2, mm.second), long(sm.first - mb), long(sm.second - s.begin()));
            break;
        }
        case 7:
        {
            int d = estd::distance(B(), E());
            CHECK(d == (int)m.size(), "distance: %d for %zu elements", d, m.size());
            long a = 1, w = 1;
            auto op = [](long x, const It& e) { return x * 3 + e.key; };
            a = estd::accumulate(B(), E(), 1L, op); w = std::accumulate(mb, me, 1L, op);
            CHECK(a == w, "accumulate: %s folds to %ld, expected %ld", was.c_str(), a, w);
            { struct Text { std::string s; Text operator+(const It& e) const { Text t{s}; t.s += (char)('a' + e.key); return t; } }; std::string got = estd::accumulate(B(), E(), Text{"<"}).s, want = "<"; for(auto& e : m) want += (char)('a' + e.key); CHECK(got == want, "accumulate: %s adds to %s, expected %s", was.c_str(), got.c_str(), want.c_str()); }
            break;
        }
    }
    CHECK(same(vec(r), m), "modified: %s became %s", was.c_str(), show_items(vec(r)).c_str());
    c.state(was); c.observe(was);
}
static void rd_vec(Ctx& c) { reading<Blk>(c, c.thorough ? 5 : 4, 3); }
static void rd_list(Ctx& c) { reading<Bidir>(c, 4, 3); }
static void rd_fwd(Ctx& c) { reading<Fwd>(c, c.thorough ? 4 : 3, 3); }
SCENARIO_FN_SHARDED(reading_random_access, rd_vec, 1, 1, 2, 3);
SCENARIO_FN_SHARDED(reading_bidirectional, rd_list, 1, 1, 2, 3);
SCENARIO_FN_SHARDED(reading_forward, rd_fwd, 1, 1, 2, 3);

// ranges inside exactly allocated memory: ASan sees any access outside; the rest of the range must stay
template <class T> struct Heap { T* p; int n; Heap(int n) : p(new T[n ? n : 1]), n(n) {} ~Heap() { delete[] p; } };
static std::vector<It> dest(int n) { std::vector<It> v; for(int i = 0; i < n; i++) v.push_back(It(50 + i, 100 + i)); return v; }

SCENARIO_SHARDED(moving_and_filling, 1, 1, 2, 3)
{
    int maxn = c.thorough ? 6 : 5;
    auto m = items(c, maxn, 3);
    int n = (int)m.size();
    auto was = show_items(m);
    std::vector<It> model, got; long gi = 0, wi = 0; const char* what = "";
    int op = c.pick(9), overlap = c.pick(2);
    int f = c.pick(n + 1), l = f + c.pick(n - f + 1), len = l - f;
    if(overlap)
    {
        // within the same range, in the direction each is for
        model = m; got = m;
        auto G = got.data(), M = model.data();
        switch(op)
        {
            case 0: { int d = c.pick(f + 1); what = "copy"; gi = estd::copy(G + f, G + l, G + d) - G; std::copy(M + f, M + l, M + d); wi = d + len; if(len && d == f) { } break; }
            case 1: { int d = c.pick(f + 1); what = "copy_n"; gi = estd::copy_n(G + f, len, G + d) - G; std::copy_n(M + f, len, M + d); wi = d + len; break; }
            case 2: { int d = l + c.pick(n - l + 1); what = "copy_backward"; gi = estd::copy_backward(G + f, G + l, G + d) - G; std::copy_backward(M + f, M + l, M + d); wi = d - len; break; }
            case 3: { int d = l + c.pick(n - l + 1); what = "move_backward"; gi = estd::move_backward(G + f, G + l, G + d) - G; std::move_backward(M + f, M + l, M + d); wi = d - len; break; }
            case 4: what = "reverse"; estd::reverse(G + f, G + l); std::reverse(M + f, M + l); break;
            case 5: what = "fill"; estd::fill(G + f, G + l, It(9, 9)); std::fill(M + f, M + l, It(9, 9)); break;
            case 6: what = "fill_n"; gi = estd::fill_n(G + f, len, It(9, 9)) - G; wi = l; std::fill_n(M + f, len, It(9, 9)); break;
            case 7:
                if(n == 0) return;
                { int a = c.pick(n), b = c.pick(n); what = "iter_swap"; using estd::swap; estd::iter_swap(G + a, G + b); std::iter_swap(M + a, M + b); }
                break;
            case 8:
            {
                // bidirectional, not random access
                Bidir a(m.begin(), m.end());
                what = "reverse"; estd::reverse(a.nth(f), a.nth(l)); got = vec(a); std::reverse(M + f, M + l);
                break;
            }
        }
    }
    else
    {
        int room = len + c.pick(3), off = c.pick(room - len + 1);
        Heap<It> src(n), dst(room); std::copy(m.begin(), m.end(), src.p);
        model = dest(room); std::copy(model.begin(), model.end(), dst.p);
        auto M = model.data();
        switch(op)
        {
            case 0: what = "copy"; gi = estd::copy(src.p + f, src.p + l, dst.p + off) - dst.p; wi = off + len; std::copy(m.begin() + f, m.begin() + l, M + off); break;
            case 1: what = "copy_n"; gi = estd::copy_n(src.p + f, len, dst.p + off) - dst.p; wi = off + len; std::copy(m.begin() + f, m.begin() + l, M + off); break;
            case 2: what = "copy_backward"; gi = estd::copy_backward(src.p + f, src.p + l, dst.p + off + len) - dst.p; wi = off; std::copy(m.begin() + f, m.begin() + l, M + off); break;
            case 3: what = "move_backward"; gi = estd::move_backward(src.p + f, src.p + l, dst.p + off + len) - dst.p; wi = off; std::copy(m.begin() + f, m.begin() + l, M + off); break;
            case 4: { what = "copy into a list"; Fwd t(model.begin(), model.end()); gi = at(t, estd::copy(src.p + f, src.p + l, t.nth(off))); wi = off + len; std::copy(m.begin() + f, m.begin() + l, M + off); got = vec(t); break; }
            case 5: { what = "copy to an inserter"; std::vector<It> t; estd::copy(src.p + f, src.p + l, std::back_inserter(t)); got = t; model.assign(m.begin() + f, m.begin() + l); break; }
            case 6: { what = "copy_backward from a list"; Bidir t(m.begin(), m.end()); gi = estd::copy_backward(t.nth(f), t.nth(l), dst.p + off + len) - dst.p; wi = off; std::copy(m.begin() + f, m.begin() + l, M + off); break; }
            case 7: { what = "fill_n of an inserter"; std::vector<It> t; estd::fill_n(std::back_inserter(t), len, It(4, 4)); got = t; model.assign(len, It(4, 4)); break; }
            case 8: { what = "move_backward of owners"; Heap<Owner<It>> a(n), d(room); for(int i = 0; i < n; i++) a.p[i].reset(new It(m[i])); for(int i = 0; i < room; i++) d.p[i].reset(new It(model[i]));
                gi = estd::move_backward(a.p + f, a.p + l, d.p + off + len) - d.p; wi = off; std::copy(m.begin() + f, m.begin() + l, M + off);
                for(int i = 0; i < room; i++) { CHECK(d.p[i], "move_backward: lost the owner at %d", i); got.push_back(*d.p[i]); }
                for(int i = 0; i < n; i++) CHECK(!a.p[i] == (i >= f && i < l), "move_backward: owner %d was %s", i, a.p[i] ? "left behind" : "taken");
                break; }
        }
        if(op < 4 || op == 6) got.assign(dst.p, dst.p + room);
        CHECK(same(std::vector<It>(src.p, src.p + n), m), "modified: the source of %s was changed", what);
    }
    CHECK(same(got, model), "%s: elements [%d,%d) of %s: %s, expected %s", what, f, l, was.c_str(), show_items(got).c_str(), show_items(model).c_str());
    CHECK(gi == wi, "%s: elements [%d,%d) of %s: returned position %ld, expected %ld", what, f, l, was.c_str(), gi, wi);
    c.state(was); c.observe(show_items(got));
}

// the greater, the smaller, the nearest in range: values, and which of two equal ones
SCENARIO(choosing, 1, 1)
{
    int k = 4;
    It a(c.pick(k), 1), b(c.pick(k), 2);
    CHECK(&estd::min(a, b) == &std::min(a, b), "min: of keys %d and %d picks #%d", a.key, b.key, estd::min(a, b).id);
    CHECK(&estd::max(a, b) == &std::max(a, b), "max: of keys %d and %d picks #%d", a.key, b.key, estd::max(a, b).id);
    CHECK(&estd::min(a, b, ByKeyDesc()) == &std::min(a, b, ByKeyDesc()), "min: of keys %d and %d by descending key picks #%d", a.key, b.key, estd::min(a, b, ByKeyDesc()).id);
    It v(c.pick(k), 3);
    if(!(b < a))
    {
        const It& r = estd::clamp(v, a, b); const It& w = std::clamp(v, a, b);
        CHECK(&r == &w, "clamp: %d into %d..%d picks #%d, expected #%d", v.key, a.key, b.key, r.id, w.id);
    }
    if(!(a < b))
    {
        const It& r = estd::clamp(v, a, b, ByKeyDesc()); const It& w = std::clamp(v, a, b, ByKeyDesc());
        CHECK(&r == &w, "clamp: %d into %d..%d by descending key picks #%d, expected #%d", v.key, a.key, b.key, r.id, w.id);
    }
    c.state(std::to_string(a.key) + "," + std::to_string(b.key) + "," + std::to_string(v.key)); c.observe(1);
}
template <class T> static void limits_of(Ctx& c)
{
    std::vector<T> s = { std::numeric_limits<T>::min(), T(std::numeric_limits<T>::min() + 1), T(std::numeric_limits<T>::max() / 2), T(0), T(1), T(std::numeric_limits<T>::max() - 1), std::numeric_limits<T>::max() };
    T a = c.of(s), b = c.of(s), v = c.of(s);
    CHECK(estd::min(a, b) == std::min(a, b) && estd::max(a, b) == std::max(a, b), "extremes: %lld and %lld", (long long)a, (long long)b);
    if(a <= b) CHECK(estd::clamp(v, a, b) == std::clamp(v, a, b), "clamp: %lld into %lld..%lld", (long long)v, (long long)a, (long long)b);
    c.observe((uint64_t)v);
}
SCENARIO(choosing_extremes, 1, 1)
{
    switch(c.pick(4)) { case 0: limits_of<int8_t>(c); break; case 1: limits_of<uint16_t>(c); break; case 2: limits_of<int64_t>(c); break; case 3: limits_of<uint64_t>(c); break; }
}
