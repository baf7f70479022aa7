// Property C09: arrays, spans, buffers and lookup tables denote exactly their elements.
#include <estd/array.h>
#include <estd/string.h>
#include <estd/span.h>
#include <estd/map.h>
#include <estd/internal/buffer.h>
#include "mc.h"
using namespace mc;

struct Wide { int a, b; bool operator==(const Wide& o) const { return a == o.a && b == o.b; } bool operator!=(const Wide& o) const { return !(*this == o); } };
static int num(int v) { return v; }
static int num(uint8_t v) { return v; }
static int num(const Wide& w) { return w.b == w.a + 9 ? w.a : -999; }
template <class T> T mk(int v) { return T(v); }
template <> Wide mk<Wide>(int v) { return Wide{v, v + 9}; }

template <class V> static void holds(Ctx& c, const char* who, V& v, const std::vector<int>& ref)
{
    CHECK((size_t)v.size() == ref.size(), "%s: size %zu, expected %zu", who, (size_t)v.size(), ref.size());
    size_t i = 0;
    for(auto it = v.begin(); it != v.end(); ++it, ++i) { CHECK(i < ref.size(), "%s: iterates too far", who); CHECK(num(*it) == ref[i], "%s: element %zu by iteration: %d, expected %d", who, i, num(*it), ref[i]); }
    CHECK(i == ref.size(), "%s: iterates over %zu of %zu", who, i, ref.size());
    for(i = 0; i < ref.size(); i++) CHECK(num(v[i]) == ref[i], "%s: element %zu by index: %d, expected %d", who, i, num(v[i]), ref[i]);
}

// histories of writes, fills, copies
template <class T, size_t N> static void array_body(Ctx& c)
{
    typedef estd::array<T, N> A; typedef Fixed<A, 0> F; F::fill(0xAA); Fixed<A, 1>::fill(0xAA);
    A* a = F::make(); std::vector<int> ref(N);
    for(size_t i = 0; i < N; i++) { (*a)[i] = mk<T>((int)i); ref[i] = (int)i; }
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(show_seq(ref), c.bound - d)) return;
        switch(c.pick(5))
        {
            case 0: { int p = c.pick(N), v = c.pick(3); c.log("a[%d]=%d", p, v); (*a)[p] = mk<T>(v); ref[p] = v; break; }
            case 1: { int v = c.pick(3); c.log("fill %d", v); a->fill(mk<T>(v)); ref.assign(N, v); break; }
            case 2: { int p = c.pick(N), v = c.pick(3); c.log("*(begin+%d)=%d", p, v); *(a->begin() + p) = mk<T>(v); ref[p] = v; break; }
            case 3: { int p = c.pick(N), v = c.pick(3); c.log("data()[%d]=%d", p, v); a->data()[p] = mk<T>(v); ref[p] = v; break; }
            case 4: { c.log("copy"); A* b = Fixed<A, 1>::make(*a); memset((void*)a, 0xEE, sizeof(A)); a = F::make(*b); break; }
        }
        const A& ca = *a;
        holds(c, "array", *a, ref); holds(c, "const array", ca, ref);
        CHECK(num(ca.front()) == ref[0] && &a->front() == a->data(), "array: front");
        CHECK(!ca.empty() && ca.max_size() == N && ca.end() - ca.begin() == (long)N && ca.cend() - ca.cbegin() == (long)N, "array: extents");
        CHECK(F::intact(), "array: wrote outside itself");
    }
}
static void a1(Ctx& c) { array_body<int, 1>(c); }
static void a3(Ctx& c) { array_body<uint8_t, 3>(c); }
static void a4(Ctx& c) { array_body<Wide, 4>(c); }
SCENARIO_FN(array_1, a1, 5, 7);
SCENARIO_FN(array_3_bytes, a3, 4, 6);
SCENARIO_FN(array_4_structs, a4, 3, 4);

template <size_t N> static void array_sized(Ctx& c)
{
    typedef estd::array<uint8_t, N> A; Fixed<A, 2>::fill(0x77); A& a = *Fixed<A, 2>::make(); std::vector<int> ref(N);
    CHECK(sizeof(A) == N, "array: size in memory");
    a.fill(5); for(auto& r : ref) r = 5;
    size_t p = (size_t)c.pick(3) * (N - 1) / 2; a[p] = 9; ref[p] = 9;
    holds(c, "array", a, ref); CHECK((Fixed<A, 2>::intact()), "array: wrote outside itself");
    const A z{}; for(size_t i = 0; i < N; i++) CHECK(z[i] == 0, "array: value initialisation");
    uint8_t raw[N]; for(size_t i = 0; i < N; i++) raw[i] = (uint8_t)(i * 7);
    auto t = estd::to_array(raw); for(size_t i = 0; i < N; i++) ref[i] = raw[i];
    holds(c, "to_array", t, ref);
    estd::span<uint8_t> s(raw); holds(c, "span", s, ref); estd::span<uint8_t, N> f(raw); holds(c, "fixed span", f, ref);
    estd::legacy::layer2::array<uint8_t, N> l2(raw); holds(c, "array over a buffer", l2, ref);
    estd::legacy::layer3::array<uint8_t> l3(raw); holds(c, "array over a sized buffer", l3, ref);
    auto m3 = estd::legacy::layer3::make_array(raw); holds(c, "make_array", m3, ref);
}
static void s255(Ctx& c) { array_sized<255>(c); }
static void s256(Ctx& c) { array_sized<256>(c); }
static void s257(Ctx& c) { array_sized<257>(c); }
static void s300(Ctx& c) { array_sized<300>(c); }
SCENARIO_FN(sized_255, s255, 1, 1);
SCENARIO_FN(sized_256, s256, 1, 1);
SCENARIO_FN(sized_257, s257, 1, 1);
SCENARIO_FN(sized_300, s300, 1, 1);
static void s65536(Ctx& c) { typedef estd::array<uint8_t, 65536> A; static A a; CHECK(a.size() == 65536 && a.max_size() == 65536 && a.end() - a.begin() == 65536, "array: size 65536"); a.fill(3); for(auto x : a) CHECK(x == 3, "array: fill 65536"); c.observe(1); }
SCENARIO_FN(sized_65536, s65536, 1, 1);

// equality of arrays of equal and different lengths
template <size_t N, size_t M> static void eq(Ctx& c)
{
    estd::array<int, N> a; estd::array<int, M> b; std::vector<int> ra, rb;
    for(auto& x : a) { x = c.pick(2); ra.push_back(x); } for(auto& x : b) { x = c.pick(2); rb.push_back(x); }
    CHECK((a == b) == (ra == rb), "array ==: %s and %s", show_seq(ra).c_str(), show_seq(rb).c_str());
    CHECK((a != b) == (ra != rb), "array !=: %s and %s", show_seq(ra).c_str(), show_seq(rb).c_str());
    c.observe(show_seq(ra) + show_seq(rb));
}
SCENARIO(equality, 1, 1)
{
    switch(c.pick(5)) { case 0: eq<1, 1>(c); break; case 1: eq<2, 2>(c); break; case 2: eq<4, 4>(c); break; case 3: eq<3, 2>(c); break; case 4: eq<2, 3>(c); break; }
}

// lists shorter than the array are copied to its front
SCENARIO(initializer_list, 1, 1)
{
    int x = c.pick(3), y = c.pick(3), z = c.pick(3);
    estd::array<int, 3> a{x, y, z}; std::vector<int> ref{x, y, z}; holds(c, "array{...}", a, ref);
    estd::legacy::array<int, 3, size_t> l{x, y, z}; holds(c, "legacy array{...}", l, ref);
    CHECK(l.front() == x, "legacy front"); l.fill(y); holds(c, "legacy fill", l, {y, y, y});
    c.observe(show_seq(ref));
}

// every sub-span of every span
static int backing[8];
template <class S> static void span_of(Ctx& c, S& s, int off, int len)
{
    std::vector<int> ref; for(int i = 0; i < len; i++) ref.push_back(100 + off + i);
    holds(c, "span", s, ref);
    CHECK(s.data() == backing + off, "span: data"); CHECK(s.empty() == (len == 0), "span: empty"); CHECK(s.size_bytes() == len * sizeof(int), "span: size_bytes");
    CHECK(s.end() - s.begin() == len && s.cend() - s.cbegin() == len, "span: extents");
    auto b = estd::as_bytes(s); CHECK((size_t)b.size() == len * sizeof(int) && (const void*)b.data() == (const void*)s.data(), "as_bytes: wrong");
    auto w = estd::as_writable_bytes(s); CHECK((size_t)w.size() == len * sizeof(int) && (void*)w.data() == (void*)s.data(), "as_writable_bytes: wrong");
}
SCENARIO(subspans, 1, 1)
{
    for(int i = 0; i < 8; i++) backing[i] = 100 + i;
    int len = c.pick(9), how = c.pick(5);
    auto sub = [&](auto& s, int base, int n)
    {
        span_of(c, s, base, n);
        int off = c.pick(n + 1);
        switch(c.pick(3))
        {
            case 0: { c.log("subspan(%d) of %d", off, n); auto t = s.subspan(off); span_of(c, t, base + off, n - off); auto u = t.subspan((n - off) / 2); span_of(c, u, base + off + (n - off) / 2, n - off - (n - off) / 2); break; }
            case 1: { int k = c.pick(n - off + 1); c.log("subspan(%d,%d) of %d", off, k, n); auto t = s.subspan(off, k); span_of(c, t, base + off, k); auto u = t.first(k / 2); span_of(c, u, base + off, k / 2); estd::span<int> v(s); v = t; span_of(c, v, base + off, k); break; }
            case 2: { auto t = s.first(off); span_of(c, t, base, off); estd::span<int> v(t); span_of(c, v, base, off); break; }
        }
        c.observe(len * 100 + off);
    };
    if(how == 0) { estd::span<int> s(backing, (size_t)len); sub(s, 0, len); }
    else if(how == 1) { estd::span<int> s(backing + 8 - len, backing + 8); sub(s, 8 - len, len); }
    else if(how == 2) { estd::span<int> s(backing); sub(s, 0, 8); }
    else if(how == 3) { estd::span<int, 8> s(backing); span_of(c, s, 0, 8); int off = c.pick(9); auto t = s.subspan(off); span_of(c, t, off, 8 - off); estd::span<int> d(s); sub(d, 0, 8); }
    else { estd::span<int> e; CHECK(e.size() == 0 && e.empty() && e.begin() == e.end(), "span: default is empty"); }
}

// writes through a span land in the spanned memory, and nowhere else
SCENARIO(span_writes, 4, 5)
{
    static int mem[6]; std::vector<int> ref(6); for(int i = 0; i < 6; i++) { mem[i] = 0; }
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(show_seq(ref), c.bound - d)) return;
        int off = c.pick(5), i = c.pick(5 - off + 1) % (6 - off), v = 1 + c.pick(2);
        if(c.flip()) { estd::span<int> s(mem, 6u); auto t = s.subspan(off, 6 - off); t[i] = v; }
        else { estd::internal::layer3::buffer<int> b(mem + off, 6 - off); b[i] = v; CHECK(b.size() == 6u - off && b.size_bytes() == (6 - off) * sizeof(int) && &b.back() == mem + 5, "buffer: extents"); }
        ref[off + i] = v;
        for(int k = 0; k < 6; k++) CHECK(mem[k] == ref[k], "span write: position %d", k);
    }
}

// Lookup tables give the entry for a key, or nothing
template <class Map, class Buf> static void lookups(Ctx& c, Map& m, Buf& ref, int n)
{
    for(int k = 0; k < 4; k++)
    {
        int expect = -1; for(int i = n - 1; i >= 0; i--) if(ref[i].first == k) expect = ref[i].second;
        auto p = m[k];
        if(expect < 0) CHECK(p == nullptr, "lookup table: found key %d that is not there", k);
        else { CHECK(p != nullptr, "lookup table: key %d not found", k); CHECK(*p == expect, "lookup table: key %d gives %d, expected %d", k, *p, expect); *p = expect + 50; CHECK(*m[k] == expect + 50, "lookup table: write"); *p = expect; }
    }
}
SCENARIO(lookup_tables, 1, 1)
{
    typedef estd::layer1::map<int, int, 4>::value_type V; V buf[4]; int keys[4];
    for(int i = 0; i < 4; i++) { keys[i] = c.pick(4); buf[i].first = keys[i]; buf[i].second = 10 + i; }
    c.observe(keys[0] * 64 + keys[1] * 16 + keys[2] * 4 + keys[3]);
    { estd::array<V, 4> a; for(int i = 0; i < 4; i++) a[i] = buf[i]; estd::layer1::map<int, int, 4> m(a); lookups(c, m, buf, 4); }
    { estd::layer1::map<int, int, 4> m = {{keys[0], 10}, {keys[1], 11}, {keys[2], 12}, {keys[3], 13}}; lookups(c, m, buf, 4); }
    { V b2[4]; for(int i = 0; i < 4; i++) b2[i] = buf[i]; estd::layer2::map<int, int, 4> m(b2); lookups(c, m, b2, 4); }
    { V b2[4]; for(int i = 0; i < 4; i++) b2[i] = buf[i]; estd::layer3::map<int, int> m(b2); lookups(c, m, b2, 4); }
    { V b2[3]; for(int i = 0; i < 3; i++) b2[i] = buf[i]; estd::layer3::map<int, int> m(b2); lookups(c, m, b2, 3); }
}

// spans and arrays of more elements than one or two bytes count
template <class T> static void large_span(Ctx& c)
{
    static const size_t sizes[] = { 254, 255, 256, 257, 300, 65534, 65535, 65536, 65537, 70000 };
    size_t n = c.of(sizes), off = c.of(sizes), k = c.of(sizes), at = c.pick(3);
    if(off > n) return;
    static std::vector<T> mem(70000); for(size_t i = 0; i < mem.size(); i++) mem[i] = (T)(i * 31 + i / 251);
    c.log("span of %zu, from %zu, %zu of it", n, off, k); c.state(std::to_string(n) + "/" + std::to_string(off) + "/" + std::to_string(k));
    auto is = [&](const char* what, auto&& s, size_t from, size_t len)
    {
        CHECK((size_t)s.size() == len && s.data() == mem.data() + from, "%s: %zu elements from %zd, expected %zu from %zu", what, (size_t)s.size(), (ptrdiff_t)(s.data() - mem.data()), len, from);
        CHECK((size_t)(s.end() - s.begin()) == len && s.empty() == (len == 0) && (size_t)s.size_bytes() == len * sizeof(T), "%s: extents of %zu elements", what, len);
        auto b = estd::as_bytes(s); CHECK((size_t)b.size() == len * sizeof(T) && (const void*)b.data() == (const void*)s.data(), "as_bytes: %zu of %zu elements", (size_t)b.size(), len);
        auto w = estd::as_writable_bytes(s); CHECK((size_t)w.size() == len * sizeof(T) && (const void*)w.data() == (const void*)s.data(), "as_writable_bytes: %zu of %zu elements", (size_t)w.size(), len);
        if(len) { size_t p = at * (len - 1) / 2; CHECK(s[p] == mem[from + p], "%s: element %zu", what, p); }
    };
    estd::span<T> s(mem.data(), n); is("span", s, 0, n);
    is("subspan", s.subspan(off), off, n - off);
    if(k <= n - off) is("subspan", s.subspan(off, k), off, k);
    if(k <= n) is("first", s.first(k), 0, k);
    estd::span<T> e(mem.data() + off, mem.data() + n); is("span", e, off, n - off);
    c.observe(n * 31 + off);
}
SCENARIO_FN(large_spans, large_span<uint8_t>, 1, 1);
SCENARIO_FN(large_spans_words, large_span<uint32_t>, 1, 1);
template <class T, size_t N> static void fixed_bytes(Ctx& c)
{
    static T raw[N]; for(size_t i = 0; i < N; i++) raw[i] = (T)i;
    estd::span<T, N> f(raw); std::vector<int> ref; for(size_t i = 0; i < N; i++) ref.push_back((int)raw[i]);
    holds(c, "fixed span", f, ref); CHECK(f.size_bytes() == N * sizeof(T), "size_bytes: %zu", (size_t)f.size_bytes());
    auto b = estd::as_bytes(f); CHECK((size_t)b.size() == N * sizeof(T) && (const void*)b.data() == (const void*)raw, "as_bytes: %zu of %zu elements", (size_t)b.size(), N);
    auto w = estd::as_writable_bytes(f); CHECK((size_t)w.size() == N * sizeof(T) && (const void*)w.data() == (const void*)raw, "as_writable_bytes: %zu of %zu elements", (size_t)w.size(), N);
    size_t n = 0; for(auto x : b) CHECK((uint8_t)x == ((const uint8_t*)raw)[n++], "as_bytes: byte"); CHECK(n == N * sizeof(T), "as_bytes: iterates over %zu bytes of %zu elements", n, N);
    for(size_t off = 0; off <= N; off += (N > 300 ? 97 : 1)) { auto t = f.subspan(off); CHECK((size_t)t.size() == N - off && t.data() == raw + off, "subspan: of a fixed span from %zu", off); }
    c.observe(N * sizeof(T));
}
SCENARIO(fixed_span_bytes, 1, 1)
{
    switch(c.pick(12))
    {
        case 0: fixed_bytes<uint8_t, 63>(c); break; case 1: fixed_bytes<int, 63>(c); break; case 2: fixed_bytes<int, 64>(c); break; case 3: fixed_bytes<int, 65>(c); break;
        case 4: fixed_bytes<uint16_t, 127>(c); break; case 5: fixed_bytes<uint16_t, 128>(c); break; case 6: fixed_bytes<uint8_t, 255>(c); break; case 7: fixed_bytes<uint8_t, 256>(c); break;
        case 8: fixed_bytes<uint8_t, 300>(c); break; case 9: fixed_bytes<int, 300>(c); break; case 10: fixed_bytes<int, 16384>(c); break; case 11: fixed_bytes<uint16_t, 40000>(c); break;
    }
}
template <size_t N, size_t M> static void far_eq(Ctx& c)
{
    static estd::array<int, N> a; static estd::array<int, M> b; std::vector<int> ra(N), rb(M);
    // equal as far as both go, or different at one place
    for(size_t i = 0; i < N; i++) ra[i] = (int)i % 5; for(size_t i = 0; i < M; i++) rb[i] = (int)i % 5;
    if(c.flip()) { size_t p = c.pick(3) * (N - 1) / 2; ra[p] += 1; } if(c.flip()) { size_t p = c.pick(3) * (M - 1) / 2; rb[p] += 1; }
    for(size_t i = 0; i < N; i++) a[i] = ra[i]; for(size_t i = 0; i < M; i++) b[i] = rb[i];
    CHECK((a == b) == (ra == rb) && (b == a) == (ra == rb), "array ==: arrays of %zu and %zu", N, M); CHECK((a != b) == (ra != rb) && (b != a) == (ra != rb), "array !=: arrays of %zu and %zu", N, M);
    c.observe(ra == rb);
}
SCENARIO(large_equality, 1, 1)
{
    switch(c.pick(9))
    {
        case 0: far_eq<3, 259>(c); break; case 1: far_eq<1, 257>(c); break; case 2: far_eq<255, 256>(c); break; case 3: far_eq<256, 256>(c); break; case 4: far_eq<257, 257>(c); break;
        case 5: far_eq<300, 300>(c); break; case 6: far_eq<44, 300>(c); break; case 7: far_eq<7, 65543>(c); break; case 8: far_eq<65600, 65600>(c); break;
    }
}
