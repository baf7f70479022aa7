// Property C03: read-only views denote exactly the characters they were made from.
// ALSO: -std=gnu++20
// ALSO: DEVICE
#include <estd/string.h>
#include <estd/string_view.h>
#include <string>
#include <string_view>
#include "mc.h"
using namespace mc;

struct Exact
{
    char* p; size_t n;
    Exact(const std::string& s, bool nt) : p((char*)malloc(s.size() + (nt ? 1 : 0))), n(s.size()) { memcpy(p, s.data(), n); if(nt) p[n] = 0; }
    ~Exact() { free(p); }
};

static void agree(Ctx& c, const estd::string_view& v, std::string_view m, bool full = true)
{
    std::string ms = show(std::string(m));
    CHECK(v.size() == m.size(), "size: %zu, expected %zu", (size_t)v.size(), m.size());
    CHECK(v.length() == m.size(), "length: %zu, expected %zu", (size_t)v.length(), m.size());
    if(m.data()) CHECK(v.data() == m.data(), "data: points elsewhere");
    size_t i = 0;
    for(auto it = v.begin(); it != v.end(); ++it, ++i) { CHECK(i < m.size(), "iteration: too long"); CHECK(*it == m[i], "iteration: wrong character at %zu", i); }
    CHECK(i == m.size(), "iteration: yields %zu of %zu", i, m.size());
    for(i = 0; i < m.size(); i++) CHECK((char)v[i] == m[i], "operator[]: at %zu", i);
    if(!m.empty()) { CHECK((char)v.front() == m.front(), "front:"); CHECK((char)v.back() == m.back(), "back:"); }
    if(!full) return;
    // copy-out
    for(size_t pos = 0; pos <= m.size(); pos++)
        for(size_t cnt = 0; cnt <= m.size() + 2; cnt++)
        {
            if(cnt == m.size() + 2)         // all there is
            {
                size_t n = m.size() - pos; char* d = (char*)malloc(n ? n : 1);
                size_t r = v.copy(d, estd::string_view::npos, pos);
                CHECK(r == n && memcmp(d, m.data() + pos, n) == 0, "copy: copy(npos,%zu) of %s gives %zu", pos, ms.c_str(), r);
                free(d); continue;
            }
            size_t n = std::min(cnt, m.size() - pos);
            char* d = (char*)malloc(n ? n : 1);
            size_t r = v.copy(d, cnt, pos);
            CHECK(r == n, "copy: copy(%zu,%zu) of %s gives %zu", cnt, pos, ms.c_str(), r);
            CHECK(memcmp(d, m.data() + pos, n) == 0, "copy: wrong characters");
            free(d);
        }
    c.observe(ms);
}

SCENARIO(narrowing, 6, 8)
{
    static const char* srcs[] = { "abcde", "", "a", "abcabcabc" };
    std::string src = c.of(srcs);
    Exact e(src, false);
    estd::string_view v(e.p, src.size()); std::string_view m(e.p, src.size());
    c.log("view of %s", show(src).c_str());
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(src + "|" + std::to_string(m.data() - e.p) + "," + std::to_string(m.size()), c.bound - d)) return;
        if(d == (int)c.bound - 1) agree(c, v, m);
        switch(c.pick(6))
        {
            case 5: { c.log("substr()"); v = v.substr(); break; }
            case 0: { int n = c.pick((int)m.size() + 1); c.log("remove_prefix(%d)", n); v.remove_prefix(n); m.remove_prefix(n); break; }
            case 1: { int n = c.pick((int)m.size() + 1); c.log("remove_suffix(%d)", n); v.remove_suffix(n); m.remove_suffix(n); break; }
            case 2: { int n = c.pick((int)m.size() + 1), k = c.pick((int)m.size() + 2); c.log("substr(%d,%d)", n, k); auto t = v.substr(n, k); agree(c, v, m, false); v = t; m = m.substr(n, k); break; }
            case 3: { int n = c.pick((int)m.size() + 1); c.log("substr(%d)", n); v = v.substr(n); m = m.substr(n); break; }
            case 4: { estd::string_view w(v); c.log("copy"); v = w; break; }
        }
        agree(c, v, m, false);
    }
}

// two views into one text: what surrounds a view is not part of it
SCENARIO(parts, 1, 1)
{
    static const char* srcs[] = { "aaaa", "abab", "xabcxabc", "abcab", "a" };
    std::string src = c.of(srcs); Exact e(src, false); const int n = (int)src.size();
    int a = c.pick(n + 1), al = c.pick(n - a + 1), b = c.pick(n + 1), bl = c.pick(n - b + 1);
    estd::string_view v(e.p + a, al), w(e.p + b, bl); std::string_view m(e.p + a, al), k(e.p + b, bl);
    c.log("%s: %d+%d and %d+%d", src.c_str(), a, al, b, bl); c.state(src + char(a) + char(al));
    const bool sw = m.substr(0, k.size()) == k, ew = m.size() >= k.size() && m.substr(m.size() - k.size()) == k;
    CHECK((v == w) == (m == k), "operator==: %d", (int)(v == w));
    CHECK(v.starts_with(w) == sw, "starts_with: %d", (int)v.starts_with(w));
    CHECK(v.ends_with(w) == ew, "ends_with: %d", (int)v.ends_with(w));
    int r = v.compare(w), x = m.compare(k); CHECK((r < 0) == (x < 0) && (r > 0) == (x > 0), "compare: %d, expected %d", r, x);
    Exact t(std::string(k), true);
    CHECK(v.starts_with((const char*)t.p) == sw, "starts_with: %d for text", (int)v.starts_with((const char*)t.p));
    CHECK(v.ends_with((const char*)t.p) == ew, "ends_with: %d for text", (int)v.ends_with((const char*)t.p));
    if(!m.empty()) for(char ch : { 'a', 'b', 'x' }) CHECK(v.starts_with(ch) == (m.front() == ch) && v.ends_with(ch) == (m.back() == ch), "starts_with: or ends_with a character");
    c.observe(sw * 2 + ew);
}

SCENARIO(sources, 1, 1)
{
    static const char* srcs[] = { "", "a", "abc", "abcabcab" };
    std::string src = c.of(srcs);
    c.state(src);
    switch(c.pick(5))
    {
        case 0: { Exact e(src, true); estd::string_view v(e.p); agree(c, v, std::string_view(e.p)); break; }
        case 1: { estd::string_view v; CHECK(v.size() == 0 && v.begin() == v.end(), "default: not empty"); break; }
        case 2: { Exact e(src, false); estd::layer3::const_string s(e.p, src.size());
                  CHECK(s.size() == src.size() && s.empty() == src.empty(), "const_string: size/empty");
                  std::string got; for(char ch : s) got += ch; CHECK(got == src, "const_string: iteration"); break; }
        case 3: { Exact e(src, true); estd::layer2::const_string s(e.p);
                  CHECK(s.size() == src.size() && s.empty() == src.empty(), "layer2 const_string: size/empty");
                  std::string got; for(char ch : s) got += ch; CHECK(got == src, "layer2 const_string: iteration"); break; }
        case 4: { Exact e(src, false); estd::string_view v(e.p, src.size()); estd::layer1::string<24> s; s = v;
                  CHECK(s == src.c_str(), "assign from view"); s += v; CHECK(s == (src + src).c_str(), "append a view");
                  estd::layer1::string<16> t(v); CHECK(t == src.c_str(), "construct from view"); break; }
    }
}

// views of more characters than one or two bytes count
SCENARIO(long_views, 2, 3)
{
    static const size_t lens[] = { 255, 256, 257, 300, 65535, 65536, 70000 };
    size_t n = c.of(lens); static std::string text; if(text.empty()) for(size_t i = 0; i < 70000; i++) text += (char)('a' + (i * 7 + i / 13) % 26);
    char* p = (char*)malloc(n); memcpy(p, text.data(), n); struct Free { char* p; ~Free() { free(p); } } fr{p};
    estd::string_view v(p, n); std::string_view m(p, n); c.log("view of %zu", n);
    auto some = [&](size_t upto) -> size_t { std::vector<size_t> o; for(size_t x : { (size_t)0, (size_t)1, (size_t)254, (size_t)255, (size_t)256, (size_t)257, (size_t)65535, (size_t)65536, upto / 2, upto - 1, upto }) if(x <= upto && std::find(o.begin(), o.end(), x) == o.end()) o.push_back(x); return o[c.pick((int)o.size())]; };
    auto same = [&](const estd::string_view& v, std::string_view m)
    {
        CHECK(v.size() == m.size() && v.length() == m.size() && v.data() == m.data(), "size: %zu from %td, expected %zu from %td", (size_t)v.size(), v.data() - p, m.size(), m.data() - p);
        CHECK((size_t)(v.end() - v.begin()) == m.size(), "iteration: %zu of %zu", (size_t)(v.end() - v.begin()), m.size());
        for(size_t i : { (size_t)0, (size_t)255, (size_t)256, (size_t)257, (size_t)65535, (size_t)65536, m.size() - 1 }) if(i < m.size()) CHECK((char)v[i] == m[i] && (char)*(v.begin() + i) == m[i], "operator[]: at %zu", i);
        if(!m.empty()) CHECK((char)v.front() == m.front() && (char)v.back() == m.back(), "front: or back");
    };
    same(v, m);
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(std::to_string(n) + "|" + std::to_string(m.data() - p) + "," + std::to_string(m.size()), c.bound - d)) return;
        if(d == (int)c.bound - 1)
        {
            size_t i = 0; for(auto it = v.begin(); it != v.end(); ++it, ++i) { CHECK(i < m.size(), "iteration: too long"); CHECK(*it == m[i], "iteration: at %zu", i); } CHECK(i == m.size(), "iteration: %zu of %zu", i, m.size());
            estd::string_view all(p, n); CHECK((v == all) == (m == std::string_view(p, n)), "operator==: views of %zu and %zu", m.size(), n);
            CHECK(all.starts_with(v) == (std::string_view(p, n).substr(0, m.size()) == m), "starts_with: view of %zu", m.size());
            char* out = (char*)malloc(m.size() + 1); size_t r = v.copy(out, m.size() + 1, 0); CHECK(r == m.size() && memcmp(out, m.data(), r) == 0, "copy: %zu of %zu", r, m.size()); free(out);
        }
        switch(c.pick(4))
        {
            case 0: { size_t k = some(m.size()); c.log("remove_prefix(%zu)", k); v.remove_prefix(k); m.remove_prefix(k); break; }
            case 1: { size_t k = some(m.size()); c.log("remove_suffix(%zu)", k); v.remove_suffix(k); m.remove_suffix(k); break; }
            case 2: { size_t k = some(m.size()), l = some(m.size() - k); c.log("substr(%zu,%zu)", k, l); v = v.substr(k, l); m = m.substr(k, l); break; }
            case 3: { size_t k = some(m.size()); c.log("substr(%zu)", k); v = v.substr(k); m = m.substr(k); break; }
        }
        same(v, m);
    }
    c.observe(std::to_string(n) + "|" + std::to_string(m.size()));
}
SCENARIO(long_sources, 1, 1)
{
    static const size_t lens[] = { 253, 254, 255, 256, 257, 300, 511, 512, 65534, 65535, 65536, 70000 };
    size_t n = c.of(lens); std::string t; for(size_t i = 0; i < n; i++) t += (char)('a' + (i * 7 + i / 13) % 26);
    Exact z(t, true), e(t, false); c.state(std::to_string(n)); c.log("%zu characters", n);
    auto is = [&](const char* what, auto& s) { CHECK((size_t)s.size() == n && !s.empty(), "%s: size %zu, expected %zu", what, (size_t)s.size(), n); size_t i = 0; for(char ch : s) { CHECK(i < n && ch == t[i], "%s: character %zu", what, i); ++i; } CHECK(i == n, "%s: iterates over %zu of %zu", what, i, n); };
    switch(c.pick(5))
    {
        case 0: { estd::string_view v(z.p); CHECK(v.size() == n && v.data() == z.p, "view: size %zu, expected %zu", (size_t)v.size(), n); agree(c, v, std::string_view(z.p, n), false); break; }
        case 1: { if(n > 65535) return; estd::layer3::const_string s(e.p, n); is("const_string", s); estd::string_view v(s); agree(c, v, std::string_view(e.p, n), false); break; }
        case 2: { if(n > 254) return; estd::layer2::const_string s(z.p); is("layer2 const_string", s); break; }
        case 3: { if(n > 600) return; estd::string_view v(e.p, n); estd::layer1::string<700> s(v); is("string from a view", s); estd::string_view w(s); CHECK(w.size() == n && w == v, "view of a string: size %zu", (size_t)w.size()); break; }
        case 4: { if(n > 600) return; estd::string_view v(e.p, n); estd::layer1::string<700> s; s = v; is("string assigned a view", s); estd::layer1::basic_string<char, 700, false> u; u += v; is("sized string += a view", u); break; }
    }
    c.observe(n);
}
