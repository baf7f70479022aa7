// Property C02: searching and comparing character sequences.
// ALSO: DEVICE
#include <estd/string.h>
#include <estd/string_view.h>
#include <string>
#include "mc.h"
using namespace mc;

// every string over {a,b} of length 0..n, n given
static std::string word(Ctx& c, int maxlen, const char* alpha = "ab")
{
    int n = c.pick(maxlen + 1); std::string r; int k = (int)strlen(alpha);
    for(int i = 0; i < n; i++) r += alpha[c.pick(k)];
    return r;
}

// exact-size heap copy, so that any read past either end is caught
struct Exact
{
    char* p; size_t n;
    Exact(const std::string& s, bool nt) : p((char*)malloc(s.size() + (nt ? 1 : 0))), n(s.size()) { memcpy(p, s.data(), n); if(nt) p[n] = 0; }
    ~Exact() { free(p); }
};

template <class SZ> static long long norm(SZ v, SZ npos) { return v == npos ? -1 : (long long)v; }
static long long norm(size_t v) { return v == std::string::npos ? -1 : (long long)v; }
static int sign(int v) { return v < 0 ? -1 : v > 0; }

template <class S> static void search_ops(Ctx& c, const S& s, const std::string& m)
{
    typedef typename S::size_type size_type;
    const size_type npos = S::npos;
    int op = c.pick(7);
    if(op == 6)     // where no position is given the whole string is searched
    {
        std::string w = word(c, 2); Exact ew(w, true), ew2(w, false); estd::string_view ev(ew2.p, w.size()); char ch = "abc"[c.pick(3)];
        c.log("%s without position, %s", show(m).c_str(), show(w).c_str());
        auto is = [&](const char* what, size_type got, size_t want) { CHECK(norm<size_type>(got, npos) == norm(want), "%s: without position, in %s of %s gives %lld, expected %lld", what, show(m).c_str(), show(w).c_str(), norm<size_type>(got, npos), norm(want)); };
        is("find(char)", s.find(ch), m.find(ch));
        is("find", s.find(ew.p), m.find(w)); is("find", s.find(ev), m.find(w));
        is("rfind", s.rfind(ew.p), m.rfind(w)); is("rfind", s.rfind(ev), m.rfind(w));
        is("find_first_of", s.find_first_of(ew.p), m.find_first_of(w)); is("find_first_of", s.find_first_of(ev), m.find_first_of(w));
        is("find_last_of", s.find_last_of(ew.p), m.find_last_of(w)); is("find_last_of", s.find_last_of(ev), m.find_last_of(w));
        return;
    }
    if(op == 5)
    {
        char ch = "abc"[c.pick(3)];
        size_t pos = c.pick((int)m.size() + 3);
        c.log("%s find('%c',%zu)", show(m).c_str(), ch, pos);
        long long r = norm<size_type>(s.find(ch, (size_type)pos), npos);
        CHECK(r == norm(m.find(ch, pos)), "find(char): %s.find('%c',%zu) gives %lld", show(m).c_str(), ch, pos, r);
        c.observe(r);
        return;
    }
    std::string w = word(c, 3);
    int pi = c.pick((int)m.size() + 3);
    bool isnpos = pi == (int)m.size() + 2;
    size_t mp = isnpos ? std::string::npos : pi; size_type ep = isnpos ? npos : (size_type)pi;
    int form = c.pick(5);               // C string, pointer+count, another string, a view, a sized string
    Exact ew(w, true);
    Exact ew2(w + "b", false), ew3(w + "b", true);
    estd::layer3::const_string es(ew3.p, w.size());
    estd::string_view ev(ew3.p, w.size());
    estd::layer1::basic_string<char, 8, false> e1; e1.append(ew3.p, w.size() + 1); e1.resize(w.size());
    long long got = 0, want = 0; const char* nm = "";
    switch(op)
    {
        case 0: nm = "find"; want = norm(m.find(w, mp)); break;
        case 1: nm = "rfind"; want = norm(m.rfind(w, mp)); break;
        case 2: nm = "find_first_of"; want = norm(m.find_first_of(w, mp)); break;
        case 3: nm = "find_last_of"; want = norm(m.find_last_of(w, mp)); break;
        case 4: nm = "find"; want = norm(m.find(w)); ep = 0; isnpos = false; break;
    }
    c.log("%s %s(%s,%lld) form %d", show(m).c_str(), nm, show(w).c_str(), (long long)mp, form);
    if(op < 4 && form > 2) switch(op * 2 + form - 3)
    {
        case 0: got = norm<size_type>(s.find(ev, ep), npos); break;
        case 1: got = norm<size_type>(s.find(e1, ep), npos); break;
        case 2: got = norm<size_type>(s.rfind(ev, ep), npos); break;
        case 3: got = norm<size_type>(s.rfind(e1, ep), npos); break;
        case 4: got = norm<size_type>(s.find_first_of(ev, ep), npos); break;
        case 5: got = norm<size_type>(s.find_first_of(e1, ep), npos); break;
        case 6: got = norm<size_type>(s.find_last_of(ev, ep), npos); break;
        case 7: got = norm<size_type>(s.find_last_of(e1, ep), npos); break;
    }
    else if(op == 4) switch(form)
    {
        case 0: got = norm<size_type>(s.find(ew.p), npos); break;
        case 1: got = norm<size_type>(s.find(es), npos); break;
        case 2: got = norm<size_type>(s.find(ev), npos); break;
        case 3: got = norm<size_type>(s.find(e1), npos); break;
        case 4: nm = "rfind"; want = norm(m.rfind(w)); got = norm<size_type>(mp % 2 ? s.rfind(ev) : s.rfind(ew.p), npos); break;
    }
    else switch(op * 3 + form)
    {
        case 0: got = norm<size_type>(s.find(ew.p, ep), npos); break;
        case 1: got = norm<size_type>(s.find(ew2.p, ep, (size_type)w.size()), npos); break;
        case 2: got = norm<size_type>(s.find(es, ep), npos); break;
        case 3: got = norm<size_type>(s.rfind(ew.p, ep), npos); break;
        case 4: got = norm<size_type>(s.rfind(ew2.p, ep, (size_type)w.size()), npos); break;
        case 5: got = norm<size_type>(s.rfind(es, ep), npos); break;
        case 6: got = norm<size_type>(s.find_first_of(ew.p, ep), npos); break;
        case 7: got = norm<size_type>(s.find_first_of(ew2.p, ep, (size_type)w.size()), npos); break;
        case 8: got = norm<size_type>(s.find_first_of(es, ep), npos); break;
        case 9: got = norm<size_type>(s.find_last_of(ew.p, ep), npos); break;
        case 10: got = norm<size_type>(s.find_last_of(ew2.p, ep, (size_type)w.size()), npos); break;
        case 11: got = norm<size_type>(s.find_last_of(es, ep), npos); break;
    }
    CHECK(got == want, "%s: %s.%s(%s, pos %lld) gives %lld, expected %lld", nm, show(m).c_str(), nm, show(w).c_str(), (long long)mp, got, want);
    c.observe(got * 7 + op);
}

template <class S> static void compare_ops(Ctx& c, const S& s, const std::string& m)
{
    std::string w = word(c, 4, "ab");
    Exact ew(w, true), ex(w, false);
    estd::layer3::const_string es(ex.p, w.size());
    estd::string_view ev(ex.p, w.size());
    estd::layer1::string<8> e1(ew.p);
    estd::layer1::basic_string<char, 8, false> e2; e2.append((w + "b").c_str(), w.size() + 1); e2.resize(w.size());
    int want = sign(m.compare(w));
    bool sw = m.size() >= w.size() && m.compare(0, w.size(), w) == 0;
    bool ends = m.size() >= w.size() && m.compare(m.size() - w.size(), w.size(), w) == 0;
    std::string sm = show(m), swd = show(w);
    c.log("%s vs %s", sm.c_str(), swd.c_str());
    CHECK(sign(s.compare(ew.p)) == want, "compare: %s.compare(%s) gives %d", sm.c_str(), swd.c_str(), s.compare(ew.p));
    CHECK(sign(s.compare(es)) == want, "compare: %s.compare(const_string %s) gives %d", sm.c_str(), swd.c_str(), s.compare(es));
    CHECK(sign(s.compare(ev)) == want, "compare: %s.compare(view %s) gives %d", sm.c_str(), swd.c_str(), s.compare(ev));
    CHECK(sign(s.compare(e2)) == want, "compare: %s.compare(sized %s) gives %d", sm.c_str(), swd.c_str(), s.compare(e2));
    CHECK((s == e2) == (m == w), "operator==: %s == sized %s", sm.c_str(), swd.c_str());
    CHECK((e2 == s) == (m == w), "operator==: sized %s == %s", swd.c_str(), sm.c_str());
    CHECK(s.starts_with(e2) == sw, "starts_with: %s.starts_with(sized %s)", sm.c_str(), swd.c_str());
    CHECK(s.ends_with(e2) == ends, "ends_with: %s.ends_with(sized %s)", sm.c_str(), swd.c_str());
    CHECK(s.starts_with(ev) == sw, "starts_with: %s.starts_with(view %s)", sm.c_str(), swd.c_str());
    CHECK(s.ends_with(ev) == ends, "ends_with: %s.ends_with(view %s)", sm.c_str(), swd.c_str());
    CHECK((s == ew.p) == (m == w), "operator==: %s == %s", sm.c_str(), swd.c_str());
    CHECK((ew.p == s) == (m == w), "operator==: reversed %s == %s", sm.c_str(), swd.c_str());
    CHECK((s == es) == (m == w), "operator==: %s == const_string %s", sm.c_str(), swd.c_str());
    CHECK((s == e1) == (m == w), "operator==: %s == layer1 %s", sm.c_str(), swd.c_str());
    CHECK((e1 == s) == (m == w), "operator==: layer1 %s == %s", swd.c_str(), sm.c_str());
    CHECK(s.starts_with(ew.p) == sw, "starts_with: %s.starts_with(%s) gives %d", sm.c_str(), swd.c_str(), (int)s.starts_with(ew.p));
    CHECK(s.starts_with(es) == sw, "starts_with: %s.starts_with(const_string %s)", sm.c_str(), swd.c_str());
    CHECK(s.ends_with(ew.p) == ends, "ends_with: %s.ends_with(%s) gives %d", sm.c_str(), swd.c_str(), (int)s.ends_with(ew.p));
    CHECK(s.ends_with(es) == ends, "ends_with: %s.ends_with(const_string %s)", sm.c_str(), swd.c_str());
    for(char ch : { 'a', 'b', '\0' })
    {
        CHECK(s.starts_with(ch) == (!m.empty() && m.front() == ch), "starts_with(char): %s.starts_with(%d)", sm.c_str(), ch);
        CHECK(s.ends_with(ch) == (!m.empty() && m.back() == ch), "ends_with(char): %s.ends_with(%d)", sm.c_str(), ch);
    }
    c.observe(want + 1 + 3 * sw + 6 * ends);
}

template <class F> static void with_string(Ctx& c, int maxlen, F&& f)
{
    std::string m = word(c, maxlen);
    c.state(m);
    switch(c.pick(6))
    {
        case 0: { estd::layer1::string<8> s(m.c_str()); f(s, m); break; }
        case 1: { estd::layer1::basic_string<char, 8, false> s; s.append(m.data(), m.size()); f(s, m); break; }
        case 2: { Exact e(m, false); estd::layer3::const_string s(e.p, m.size()); f(s, m); break; }
        case 3: { Exact e(m, false); estd::string_view s(e.p, m.size()); f(s, m); break; }
        case 4: { Exact e(m, true); estd::layer2::const_string s(e.p); f(s, m); break; }
        case 5: { Exact e(m, true); typedef estd::layer3::basic_string<char, true> L; L s(e.p, (typename L::size_type)m.size(), (typename L::size_type)(m.size() + 1)); f(s, m); break; }
    }
}
SCENARIO_SHARDED(search, 1, 1, 6, 8) { with_string(c, c.thorough ? 7 : 5, [&](auto& s, auto& m) { search_ops(c, s, m); }); }
SCENARIO_SHARDED(compare, 1, 1, 6, 8) { with_string(c, c.thorough ? 7 : 5, [&](auto& s, auto& m) { compare_ops(c, s, m); }); }

// any bytes, terminators among them, in texts that carry their length
static std::string bytes_word(Ctx& c, int maxlen)
{
    int n = c.pick(maxlen + 1); std::string r;
    for(int i = 0; i < n; i++) r += "\0a\xff\x80"[c.pick(4)];
    return r;
}
template <class S, class T> static void any_bytes(Ctx& c, const S& s, const std::string& m, const T& t, const std::string& w)
{
    typedef typename S::size_type size_type;
    const size_type npos = S::npos;
    std::string sm = show(m), swd = show(w);
    bool sw = m.size() >= w.size() && m.compare(0, w.size(), w) == 0;
    bool ends = m.size() >= w.size() && m.compare(m.size() - w.size(), w.size(), w) == 0;
    c.log("%s and %s", sm.c_str(), swd.c_str());
    CHECK(sign(s.compare(t)) == sign(m.compare(w)), "compare: %s.compare(%s) gives %d", sm.c_str(), swd.c_str(), s.compare(t));
    CHECK((s == t) == (m == w), "operator==: %s == %s", sm.c_str(), swd.c_str());
    CHECK(s.starts_with(t) == sw, "starts_with: %s.starts_with(%s)", sm.c_str(), swd.c_str());
    CHECK(s.ends_with(t) == ends, "ends_with: %s.ends_with(%s)", sm.c_str(), swd.c_str());
    for(size_t pos = 0; pos <= m.size() + 1; pos++)
    {
        size_type p = (size_type)pos;
        CHECK(norm<size_type>(s.find(t, p), npos) == norm(m.find(w, pos)), "find: %s in %s from %zu", swd.c_str(), sm.c_str(), pos);
        CHECK(norm<size_type>(s.rfind(t, p), npos) == norm(m.rfind(w, pos)), "rfind: %s in %s from %zu", swd.c_str(), sm.c_str(), pos);
        CHECK(norm<size_type>(s.find_first_of(t, p), npos) == norm(m.find_first_of(w, pos)), "find_first_of: %s in %s from %zu", swd.c_str(), sm.c_str(), pos);
        CHECK(norm<size_type>(s.find_last_of(t, p), npos) == norm(m.find_last_of(w, pos)), "find_last_of: %s in %s from %zu", swd.c_str(), sm.c_str(), pos);
        for(char ch : w) CHECK(norm<size_type>(s.find(ch, p), npos) == norm(m.find(ch, pos)), "find(char): %d in %s from %zu", ch, sm.c_str(), pos);
    }
    c.observe(sm + swd);
}
SCENARIO_SHARDED(any_bytes, 1, 1, 4, 5)
{
    std::string m = bytes_word(c, c.thorough ? 5 : 4), w = bytes_word(c, 2);
    c.state(m);
    Exact e(m, false), ew(w, false);
    estd::layer1::basic_string<char, 300, false> a; a.append(m.data(), m.size());
    estd::layer1::basic_string<char, 8, false> b; b.append(w.data(), w.size());
    estd::layer3::const_string ca(e.p, m.size()), cb(ew.p, w.size());
    estd::string_view va(e.p, m.size()), vb(ew.p, w.size());
    switch(c.pick(9))
    {
        case 0: any_bytes(c, a, m, b, w); break;
        case 1: any_bytes(c, a, m, cb, w); break;
        case 2: any_bytes(c, a, m, vb, w); break;
        case 3: any_bytes(c, ca, m, b, w); break;
        case 4: any_bytes(c, ca, m, cb, w); break;
        case 5: any_bytes(c, ca, m, vb, w); break;
        case 6: any_bytes(c, va, m, b, w); break;
        case 7: any_bytes(c, va, m, cb, w); break;
        case 8: any_bytes(c, va, m, vb, w); break;
    }
}

// long texts: lengths and positions on either side of what one and two bytes count
template <class S> static void long_ops(Ctx& c, const S& s, const std::string& m, const std::vector<size_t>& where, const std::string& w)
{
    typedef typename S::size_type size_type;
    const size_type npos = S::npos;
    Exact ew(w, true), ev0(w, false); estd::string_view v(ev0.p, w.size());
    size_t n = m.size();
    auto is = [&](const char* what, size_type got, size_t want, size_t pos) { CHECK(norm<size_type>(got, npos) == norm(want), "%s: %s from %zu of a text of %zu gives %lld, expected %lld", what, show(w).c_str(), pos, n, norm<size_type>(got, npos), norm(want)); };
    CHECK(s.size() == n, "size: a text of %zu says %zu", n, (size_t)s.size());
    is("find", s.find(ew.p), m.find(w), 0); is("rfind", s.rfind(ew.p), m.rfind(w), n); is("find", s.find(v), m.find(w), 0); is("rfind", s.rfind(v), m.rfind(w), n);
    is("find_first_of", s.find_first_of(ew.p), m.find_first_of(w), 0); is("find_last_of", s.find_last_of(ew.p), m.find_last_of(w), n);
    for(size_t pos : where) if(pos <= n)
    {
        size_type p = (size_type)pos;
        is("find", s.find(ew.p, p), m.find(w, pos), pos); is("find", s.find(v, p), m.find(w, pos), pos); is("find", s.find(ew.p, p, (size_type)w.size()), m.find(w, pos), pos);
        is("rfind", s.rfind(ew.p, p), m.rfind(w, pos), pos); is("rfind", s.rfind(v, p), m.rfind(w, pos), pos); is("rfind", s.rfind(ew.p, p, (size_type)w.size()), m.rfind(w, pos), pos);
        is("find_first_of", s.find_first_of(ew.p, p), m.find_first_of(w, pos), pos); is("find_first_of", s.find_first_of(v, p), m.find_first_of(w, pos), pos);
        is("find_last_of", s.find_last_of(ew.p, p), m.find_last_of(w, pos), pos); is("find_last_of", s.find_last_of(v, p), m.find_last_of(w, pos), pos);
        is("find(char)", s.find(w[0], p), m.find(w[0], pos), pos);
    }
    c.observe(n);
}
template <class S> static void long_compare(Ctx& c, const S& s, const std::string& m, const std::vector<size_t>& lens)
{
    // against a prefix, a suffix, an extension, and the same text with one character changed
    size_t n = m.size();
    auto against = [&](const std::string& w)
    {
        Exact ew(w, true), ev0(w, false); estd::string_view v(ev0.p, w.size()); estd::layer3::const_string k(ev0.p, w.size()); const bool kf = k.size() == w.size();      // (a const_string counts in two bytes)
        int want = sign(m.compare(w));
        bool sw = n >= w.size() && m.compare(0, w.size(), w) == 0, en = n >= w.size() && m.compare(n - w.size(), w.size(), w) == 0;
        CHECK(sign(s.compare(ew.p)) == want && sign(s.compare(v)) == want && (!kf || sign(s.compare(k)) == want), "compare: texts of %zu and %zu", n, w.size());
        CHECK((s == ew.p) == (m == w) && (s == v) == (m == w) && (!kf || (s == k) == (m == w)), "operator==: texts of %zu and %zu", n, w.size());
        CHECK(s.starts_with(ew.p) == sw && s.starts_with(v) == sw && (!kf || s.starts_with(k) == sw), "starts_with: texts of %zu and %zu", n, w.size());
        CHECK(s.ends_with(ew.p) == en && s.ends_with(v) == en && (!kf || s.ends_with(k) == en), "ends_with: texts of %zu and %zu", n, w.size());
    };
    for(size_t l : lens)
    {
        if(l <= n) { against(m.substr(0, l)); against(m.substr(n - l)); }
        if(l < n) { std::string w = m; w[l] ^= 1; against(w); against(w.substr(0, l + 1)); against(w.substr(l)); }
        if(l > n && l - n < 1000) against(m + std::string(l - n, 'z'));
    }
    against(m + "z"); against(m + m);
}
static const size_t AROUND[] = { 0, 1, 2, 5, 253, 254, 255, 256, 257, 258, 298, 299, 300, 301, 509, 510, 511, 512, 513, 519, 520 };
SCENARIO_SHARDED(long_texts, 1, 1, 6, 8)
{
    std::vector<size_t> around(std::begin(AROUND), std::end(AROUND));
    static const size_t lens[] = { 254, 255, 256, 257, 300, 511, 512, 513, 520 };
    size_t n = c.of(lens); std::string m(n, 'a');
    // a pattern at one place, and perhaps the same at another
    static const char* pats[] = { "b", "bc", "bab", "x" };
    std::string w = c.of(pats); size_t at = around[c.pick((int)around.size())], also = around[c.pick((int)around.size())];
    int kind = c.pick(6);
    if(at + w.size() > n || also + w.size() > n || also < at) return;
    m.replace(at, w.size(), w); m.replace(also, w.size(), w); if(w == "x") w = "y";
    c.log("%zu characters, %s at %zu and %zu, kind %d", n, w.c_str(), at, also, kind);
    c.state(show(m) + w);
    Exact e(m, false), z(m, true);
    auto both = [&](const auto& s) { long_ops(c, s, m, around, w); if(w == "b" && at == also) long_compare(c, s, m, around); };
    switch(kind)
    {
        case 0: { estd::layer1::string<600> s(z.p); both(s); break; }
        case 1: { estd::layer1::basic_string<char, 521, false> s; s.append(m.data(), m.size()); both(s); break; }
        case 2: { estd::layer3::const_string s(e.p, m.size()); both(s); break; }
        case 3: { estd::string_view s(e.p, m.size()); both(s); break; }
        case 4: { if(n > 254) return; estd::layer2::const_string s(z.p); both(s); break; }     // (which counts in one byte)
        case 5: { typedef estd::layer3::basic_string<char, true> L; L s(z.p, (typename L::size_type)m.size(), (typename L::size_type)(m.size() + 1)); both(s); break; }
    }
}
SCENARIO(huge_texts, 1, 1)
{
    static const size_t lens[] = { 65534, 65535, 65536, 65537, 65800 };
    std::vector<size_t> around = { 0, 255, 256, 65533, 65534, 65535, 65536, 65537, 65792, 65799 };
    size_t n = c.of(lens); std::string m(n, 'a');
    size_t at = around[c.pick((int)around.size())]; std::string w = c.flip() ? "b" : "bc"; int kind = c.pick(2);
    if(at + w.size() > n) return;
    m.replace(at, w.size(), w);
    c.log("%zu characters, %s at %zu, kind %d", n, w.c_str(), at, kind);
    c.state(std::to_string(n) + w + std::to_string(at));
    Exact e(m, false);
    auto both = [&](const auto& s) { if(s.size() != n) return; long_ops(c, s, m, around, w); if(w == "b") long_compare(c, s, m, around); };
    if(kind == 0) { estd::layer3::const_string s(e.p, m.size()); both(s); }
    else { estd::string_view s(e.p, m.size()); both(s); }
}

// a short text, in a string that counts in one byte, against a text longer than that
SCENARIO(short_against_long, 1, 1)
{
    static const size_t lens[] = { 253, 254, 255, 256, 257, 258, 259, 511, 512, 513 };
    std::string m(c.pick(4), 'a'), w(c.of(lens), 'a'); if(c.flip() && !m.empty()) m[m.size() - 1] = 'b'; if(c.flip()) w[w.size() - 1] = 'b';
    int kind = c.pick(5);
    c.log("%s against %zu characters, kind %d", show(m).c_str(), w.size(), kind); c.state(m + std::to_string(w.size()) + w.back());
    Exact e(m, false), z(m, true), ew(w, false), zw(w, true);
    auto go = [&](const auto& s, const auto& t, bool whole)
    {
        typedef std::remove_cv_t<std::remove_reference_t<decltype(s)>> S; typedef typename S::size_type size_type; const size_type npos = S::npos;
        int want = sign(m.compare(w));
        CHECK(sign(s.compare(t)) == want, "compare: %s with %zu characters gives %d", show(m).c_str(), w.size(), (int)s.compare(t));
        CHECK(!(s == t), "operator==: %s equals %zu characters", show(m).c_str(), w.size());
        CHECK(!s.starts_with(t) && !s.ends_with(t), "starts_with: %s starts or ends with %zu characters", show(m).c_str(), w.size());
        auto is = [&](const char* what, size_type got, size_t wanted) { CHECK(norm<size_type>(got, npos) == norm(wanted), "%s: %zu characters in %s gives %lld, expected %lld", what, w.size(), show(m).c_str(), norm<size_type>(got, npos), norm(wanted)); };
        is("find", s.find(t), m.find(w)); is("rfind", s.rfind(t), m.rfind(w)); is("find_first_of", s.find_first_of(t), m.find_first_of(w)); is("find_last_of", s.find_last_of(t), m.find_last_of(w));
        for(size_t p = 0; p <= m.size(); p++) { is("find", s.find(t, (size_type)p), m.find(w, p)); is("rfind", s.rfind(t, (size_type)p), m.rfind(w, p)); is("find_first_of", s.find_first_of(t, (size_type)p), m.find_first_of(w, p)); is("find_last_of", s.find_last_of(t, (size_type)p), m.find_last_of(w, p)); }
        if(whole) { is("find", s.find(ew.p, 0, w.size()), m.find(w)); is("rfind", s.rfind(ew.p, npos, w.size()), m.rfind(w)); is("find_first_of", s.find_first_of(ew.p, 0, w.size()), m.find_first_of(w)); is("find_last_of", s.find_last_of(ew.p, npos, w.size()), m.find_last_of(w)); }
    };
    auto all = [&](const auto& s)
    {
        estd::string_view v(ew.p, w.size()); estd::layer3::const_string k(ew.p, w.size()); estd::layer1::string<600> b(zw.p); estd::layer1::basic_string<char, 600, false> u; u.append(ew.p, w.size());
        go(s, zw.p, true); go(s, v, false); go(s, k, false); go(s, b, false); go(s, u, false);
    };
    switch(kind)
    {
        case 0: { estd::layer1::string<8> s(z.p); all(s); break; }
        case 1: { estd::layer1::basic_string<char, 8, false> s; s.append(e.p, m.size()); all(s); break; }
        case 2: { estd::layer3::const_string s(e.p, m.size()); all(s); break; }
        case 3: { estd::string_view s(e.p, m.size()); all(s); break; }
        case 4: { estd::layer2::const_string s(z.p); all(s); break; }
    }
}

// ---- units wider than a byte, told apart by more than their lowest one
template <class C> static void units(Ctx& c)
{
    typedef std::basic_string<C> M; typedef estd::basic_string_view<C> V; typedef estd::layer1::basic_string<C, 8, false> S;
    static const unsigned long wide[] = {0x161, 0x261, 0x162}, bytes[] = {0x61, 0xe1, 0x62}; const unsigned long* al = sizeof(C) > 1 ? wide : bytes;
    auto some = [&](int most) { M r; int n = c.pick(most + 1); while(n--) r += (C)al[c.pick(3)]; return r; };
    struct Ex { C* p; Ex(const M& s) : p((C*)malloc(s.size() * sizeof(C))) { memcpy(p, s.data(), s.size() * sizeof(C)); } ~Ex() { free(p); } };
    int most = c.thorough ? 6 : 5; M m = some(most), w = some(2); Ex em(m), ew(w); V v(em.p, m.size()), x(ew.p, w.size()); S s, t; s.append(em.p, m.size()); t.append(ew.p, w.size());
    auto spell = [](const M& a) { std::string r = "["; for(C u : a) { char b[16]; snprintf(b, 16, "%lx ", (unsigned long)u); r += b; } return r + "]"; }; std::string what = spell(m) + " and " + spell(w); c.log("%s", what.c_str());
    for(size_t pos = 0; pos <= m.size() + 1; pos++)
    {
        auto is = [&](const char* k, long long gv, long long gs, size_t want) { long long e = want == M::npos ? -1 : (long long)want; CHECK(gv == e && gs == e, "units: %s from %zu of %s gives %lld and %lld, expected %lld", k, pos, what.c_str(), gv, gs, e); };
        is("find", norm(v.find(ew.p, pos, w.size()), V::npos), norm(s.find(ew.p, pos, w.size()), S::npos), m.find(w, pos)); is("rfind", norm(v.rfind(ew.p, pos, w.size()), V::npos), norm(s.rfind(ew.p, pos, w.size()), S::npos), m.rfind(w, pos));
        is("find_first_of", norm(v.find_first_of(ew.p, pos, w.size()), V::npos), norm(s.find_first_of(ew.p, pos, w.size()), S::npos), m.find_first_of(w, pos)); is("find_last_of", norm(v.find_last_of(ew.p, pos, w.size()), V::npos), norm(s.find_last_of(ew.p, pos, w.size()), S::npos), m.find_last_of(w, pos));
        is("find of a view", norm(v.find(x, pos), V::npos), norm(s.find(x, pos), S::npos), m.find(w, pos)); is("find of one", norm(v.find((C)al[0], pos), V::npos), norm(s.find((C)al[0], pos), S::npos), m.find((C)al[0], pos));
        if(pos <= m.size()) for(size_t n = 0; n <= 3; n++) { V u = v.substr(pos, n); M k = m.substr(pos, n); CHECK(u.size() == k.size() && std::equal(k.begin(), k.end(), u.data()), "units: part %zu,%zu of %s", pos, n, what.c_str()); C b[4] = {}; size_t got = s.copy(b, n, pos); CHECK(got == k.size() && std::equal(k.begin(), k.end(), b), "units: copying %zu from %zu of %s", n, pos, what.c_str()); }
    }
    int want = sign(m.compare(w)); CHECK(sign(v.compare(x)) == want && sign(s.compare(x)) == want && sign(s.compare(t)) == want, "units: compare of %s gives %d, %d, %d, expected %d", what.c_str(), v.compare(x), s.compare(x), s.compare(t), want);
    CHECK((v == x) == (m == w) && (s == t) == (m == w) && (s == x) == (m == w), "units: equality of %s", what.c_str());
    bool st = m.size() >= w.size() && m.compare(0, w.size(), w) == 0, en = m.size() >= w.size() && m.compare(m.size() - w.size(), w.size(), w) == 0;
    CHECK(v.starts_with(x) == st && s.starts_with(x) == st && s.starts_with(t) == st, "units: starts of %s, expected %d", what.c_str(), st); CHECK(v.ends_with(x) == en && s.ends_with(t) == en, "units: ends of %s, expected %d", what.c_str(), en); c.observe(want * 8 + st * 2 + en);
}
SCENARIO_FN(units_wchar, units<wchar_t>, 1, 1);
SCENARIO_FN(units_char16, units<char16_t>, 1, 1);
SCENARIO_FN(units_unsigned_char, units<unsigned char>, 1, 1);
