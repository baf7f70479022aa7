// Character classification over all characters and category masks, digits of every base, and
// telling names apart as their characters arrive.
// ALSO: DEVICE
#include "mc.h"
#include <estd/cctype.h>
#include <estd/locale.h>
#include <estd/internal/locale/cbase.h>
#include <estd/internal/chooser.h>
#include <estd/string.h>
#include <estd/string_view.h>
#include <cctype>
#include <string>
#include <string_view>
#include <vector>
#include <array>

typedef estd::locale::classic_type classic;
typedef estd::internal::locale<estd::internal::locale_code::en_US, estd::internal::encodings::UTF8> english;
typedef estd::ctype_base cb;

static bool in_class(int bit, unsigned char ch)
{
    if(ch > 127) return false;
    switch(1 << bit)
    {
        case cb::space: return ::isspace(ch);
        case cb::digit: return ::isdigit(ch);
        case cb::alpha: return ::isalpha(ch);
        case cb::punct: return ::ispunct(ch);
        case cb::upper: return ::isupper(ch);
        case cb::lower: return ::islower(ch);
        case cb::xdigit: return ::isxdigit(ch);
    }
    return false;
}
template <class Locale> static void classify(mc::Ctx& c)
{
    int ch = c.pick(256); char x = (char)ch;
    typedef estd::ctype<char, Locale> ct;
    for(int mask = 0; mask < 128; mask++)
    {
        bool want = false;
        for(int b = 0; b < 7; b++) if(mask & (1 << b)) want |= in_class(b, ch);
        CHECK(ct::is((cb::mask)mask, x) == want, "class: character %d is in categories %x: %d, expected %d", ch, mask, !want, want);
    }
    bool a = ch < 128;
    CHECK(ct::is(cb::alnum, x) == (a && ::isalnum(ch)) && ct::is(cb::graph, x) == (a && ::isgraph(ch)), "class: character %d in combined categories", ch);
    CHECK(ct::isspace(x) == (a && ::isspace(ch)) && ct::isupper(x) == (a && ::isupper(ch)) && ct::islower(x) == (a && ::islower(ch)), "class: character %d on its own", ch);
    CHECK(ct::widen(x) == x, "class: character %d widened", ch);
    CHECK(estd::isspace(x, Locale()) == (a && ::isspace(ch)), "class: isspace of %d for a locale", ch);
    c.observe((uint64_t)ch);
}
SCENARIO_FN(classes, classify<classic>, 1, 1);
SCENARIO_FN(classes_english, classify<english>, 1, 1);
SCENARIO(plain_functions, 1, 1)
{
    int v = c.pick(1024 + 256) - 256;
    bool a = v >= 0 && v < 128;
    CHECK(!!estd::isupper(v) == (a && ::isupper(v)), "class: isupper(%d)", v);
    CHECK(!!estd::islower(v) == (a && ::islower(v)), "class: islower(%d)", v);
    CHECK(!!estd::isalpha(v) == (a && ::isalpha(v)), "class: isalpha(%d)", v);
    CHECK(!!estd::isspace(v) == (a && ::isspace(v)), "class: isspace(%d)", v);
    CHECK(!!estd::isdigit(v) == (a && ::isdigit(v)), "class: isdigit(%d)", v);
    c.observe((uint64_t)v);
}

// digits
static int digit(int ch, int base)
{
    int d = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'z' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'Z' ? ch - 'A' + 10 : 99;
    return d < base ? d : -1;
}
template <unsigned base> struct digits
{
    static void check(mc::Ctx& c)
    {
        int ch = c.pick(256);
        estd::cbase<char, base, classic> f;
        int d = digit(ch, base);
        CHECK(f.is_in_base((char)ch) == (d >= 0), "digit: character %d in base %u: %d", ch, base, d < 0);
        auto o = f.from_char((char)ch);
        CHECK(o.has_value() == (d >= 0), "digit: character %d has a value in base %u: %d", ch, base, d < 0);
        if(d >= 0) { CHECK(*o == d && f.from_char_raw((char)ch) == d, "digit: character %d is %d in base %u, expected %d", ch, (int)*o, base, d); CHECK(f.to_char(d) == (ch >= 'A' && ch <= 'Z' ? ch + 32 : ch), "digit: %d is written %d in base %u", d, (int)f.to_char(d), base); }
        CHECK(f.base() == base, "digit: base %u", f.base());
        c.observe((uint64_t)(d + 2));
    }
};
template <size_t... i> static void any_base(mc::Ctx& c, std::index_sequence<i...>)
{
    static void (*const f[])(mc::Ctx&) = { &digits<i + 2>::check... };
    f[c.pick(sizeof...(i))](c);
}
SCENARIO(digit_values, 1, 1) { any_base(c, std::make_index_sequence<35>()); }
SCENARIO(run_time_bases, 1, 1)
{
    // the base may be narrowed when asking
    int ch = c.pick(256);
    estd::cbase<char, 36, classic> wide; estd::cbase<char, 10, classic> narrow;
    for(int b = 11; b <= 36; b++) { auto o = wide.from_char((char)ch, b); int d = digit(ch, b); CHECK(o.has_value() == (d >= 0) && (d < 0 || *o == d) && wide.is_in_base((char)ch, b) == (d >= 0), "digit: character %d in base %d", ch, b); }
    for(int b = 2; b <= 10; b++) { auto o = narrow.from_char((char)ch, b); int d = digit(ch, b); CHECK(o.has_value() == (d >= 0) && (d < 0 || *o == d) && narrow.is_in_base((char)ch, b) == (d >= 0), "digit: character %d in base %d", ch, b); }
}

// names, told apart by their first characters
typedef estd::internal::chooser chooser;
struct Fate { int chosen; size_t used; };
static Fate fate(const std::vector<std::string>& names, const std::string& s)
{
    if(s.empty()) return { -1, 0 };
    for(size_t j = 0; j < names.size(); j++)
        if(names[j][0] == s[0])
        {
            for(size_t k = 0; k < s.size(); k++) { if(k == names[j].size()) return { (int)j, k }; if(s[k] != names[j][k]) return { -1, k + 1 }; }
            return s.size() == names[j].size() ? Fate{ (int)j, s.size() } : Fate{ -1, s.size() };
        }
    return { -1, 1 };
}
template <class Name, size_t N> static void choose(mc::Ctx& c, const Name (&names)[N], const std::vector<std::string>& plain, const std::string& s)
{
    Fate want = fate(plain, s);
    std::vector<char> own(s.begin(), s.end()); own.push_back(0);
    const char *in = own.data(), *end = in + s.size();
    int chosen = chooser::choose(names, in, end);
    CHECK(chosen == want.chosen, "choose: %s picks %d, expected %d", mc::show(s).c_str(), chosen, want.chosen);
    CHECK(in - own.data() == (long)want.used, "choose: %s uses %ld, expected %zu", mc::show(s).c_str(), (long)(in - own.data()), want.used);
    // one character at a time, on a chooser that was used before
    static const char rubbish[] = "tzy\0n";
    chooser h;
    if(c.flip()) { h.process(names, rubbish[c.pick(5)]); h.reset(); CHECK(h.chosen() == -1, "choose: %d after a reset", h.chosen()); }
    size_t used = 0; bool done = false;
    while(used < s.size() && !done) done = h.process(names, s[used++]);
    CHECK(used == want.used, "process: %s done after %zu, expected %zu", mc::show(s).c_str(), used, want.used);
    if(done) CHECK(h.chosen() == want.chosen, "process: %s picks %d, expected %d", mc::show(s).c_str(), h.chosen(), want.chosen);
    // again, starting over
    const char* r = h.choose(names, (const char*)own.data(), end, true);
    CHECK(h.chosen() == want.chosen && r - own.data() == (long)want.used, "choose: %s again picks %d", mc::show(s).c_str(), h.chosen());
    c.observe((uint64_t)(want.chosen + 1) * 64 + want.used);
}
static std::string text(mc::Ctx& c, const char* al, int n, int most)
{
    std::string s; int len = c.pick(most + 1);
    while(len--) s += al[c.pick(n)];
    return s;
}
SCENARIO(choose_truth, 5, 6)
{
    static const char* const names[] = { "true", "false" };
    std::string s = text(c, "truefalsx", 9, c.bound);
    c.log("%s", mc::show(s).c_str());
    if(c.flip()) choose(c, names, { "true", "false" }, s);
    else { static const std::string_view v[] = { "true", "false" }; choose(c, v, { "true", "false" }, s); }
}
SCENARIO(choose_many, 5, 6)
{
    static const std::string names[] = { "one", "two", "zz", "a", "noon", "\xff\x80" };
    std::string s = text(c, "ontwza\xff\x80\0", 9, c.bound);
    c.log("%s", mc::show(s).c_str());
    choose(c, names, { "one", "two", "zz", "a", "noon", "\xff\x80" }, s);
}
SCENARIO(choose_one, 6, 7)
{
    static const std::string_view names[] = { "abab" };
    std::string s = text(c, "ab\0", 3, c.bound);
    choose(c, names, { "abab" }, s);
}
// names of every length that matters to a counter
SCENARIO(choose_long, 1, 1)
{
    static const std::vector<int> lengths = { 1, 2, 127, 128, 129, 254, 255, 256, 257, 258, 300, 1000, 40000 };
    auto name = [](int n, char first) { std::string s(1, first); for(int i = 1; i < n; i++) s += (char)('a' + i % 23); return s; };
    int la = c.of(lengths), lb = c.of(lengths); const std::string names[] = { name(la, '1'), name(lb, '2') }; int w = c.pick(2), n = w ? lb : la; std::string s = names[w];
    switch(c.pick(4)) { case 0: break; case 1: s.resize(n - 1); break; case 2: s += s; break; case 3: { int at = c.of(lengths); if(at >= n) return; s[at] = '~'; break; } }
    c.log("lengths %d and %d, number %d, text of %zu", la, lb, w, s.size()); choose(c, names, { names[0], names[1] }, s);
}

// characters as strings' and streams' traits see them, whether the platform's or estd's own
struct Exact2 { char* p; explicit Exact2(const std::string& s) : p((char*)malloc(s.size())) { if(s.size()) memcpy(p, s.data(), s.size()); } ~Exact2() { free(p); } };
using mc::show;
SCENARIO(traits, 2, 3)
{
    typedef estd::char_traits<char> T;
    static const char alphabet[] = { 'a', 'b', 0x7f, (char)0x80, (char)0xff };
    auto sign = [](int v) { return v < 0 ? -1 : v > 0; };
    switch(c.pick(3))
    {
        case 0:
        {
            int v = c.pick(256); char ch = (char)v;
            c.log("character %d", v);
            CHECK(T::to_int_type(ch) == v && T::to_char_type(T::to_int_type(ch)) == ch && !(T::to_int_type(ch) == T::eof()), "traits: %d as an int", v);
            CHECK(T::not_eof(T::eof()) != T::eof(), "traits: not_eof(eof)");
            for(int w = 0; w < 256; w++)
            {
                char other = (char)w;
                CHECK(T::eq(ch, other) == (v == w), "traits: eq(%d, %d)", v, w);
                CHECK(sign(T::compare(&ch, &other, 1)) == sign(v - w), "traits: compare(%d, %d) is %d", v, w, T::compare(&ch, &other, 1));
                CHECK((T::find(&ch, 1, other) == &ch) == (v == w), "traits: find(%d, %d)", v, w);
            }
            break;
        }
        case 1:
        {
            int n = c.pick(c.bound + 2); std::string a, b; for(int i = 0; i < n; i++) { a += c.of(alphabet); b += c.of(alphabet); }
            c.log("%s with %s", show(a).c_str(), show(b).c_str());
            Exact2 x(a), y(b);
            CHECK(sign(T::compare(x.p, y.p, n)) == sign(memcmp(a.data(), b.data(), n)), "traits: compare(%s, %s, %d) is %d", show(a).c_str(), show(b).c_str(), n, T::compare(x.p, y.p, n));
            break;
        }
        default:
        {
            int n = c.pick(c.bound + 3); std::string a; for(int i = 0; i < n; i++) a += c.of(alphabet);
            char want = c.of(alphabet);
            c.log("%s", show(a).c_str());
            Exact2 x(a);
            const char* r = T::find(x.p, n, want); size_t at = a.find(want);
            CHECK(r == (at == std::string::npos ? nullptr : x.p + at), "traits: find in %s", show(a).c_str());
            Exact2 z(a + '\0');
            CHECK(T::length(z.p) == (size_t)n, "traits: length(%s) is %zu", show(a).c_str(), (size_t)T::length(z.p));
            break;
        }
    }
    c.observe(c.bound);
}
