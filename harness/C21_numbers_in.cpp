// Property C21: reading numbers and truth values from input.
// ALSO: DEVICE
#include <estd/istream.h>
#include <estd/ostream.h>
#include <estd/string.h>
#include <estd/sstream.h>
#include <estd/locale.h>
#include "mc.h"
#include <limits>
using namespace mc;
typedef estd::ios_base ios;

// a user's own locale
struct my_locale : estd::locale::classic_type {};
namespace estd {
template <> struct numpunct<char, my_locale> : numpunct<char, estd::locale::classic_type>
{
    static layer2::const_string truename() { return "yes"; }
    static layer2::const_string falsename() { return "no"; }
};
}

struct Reading { unsigned long long mag = 0; bool neg = false, any = false, over = false, end = false; size_t stop = 0; };
static int digit(unsigned char ch, unsigned base)
{
    int d = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'z' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'Z' ? ch - 'A' + 10 : 99;
    return d < (int)base ? d : -1;
}
template <class T> static Reading read(const std::string& s, unsigned base)
{
    typedef std::numeric_limits<T> L;
    Reading r; size_t i = 0;
    if(L::is_signed && i < s.size() && s[i] == '-') { r.neg = true; ++i; }
    unsigned long long lim = r.neg ? (unsigned long long)L::max() + 1 : (unsigned long long)L::max();
    for(; i < s.size() && digit(s[i], base) >= 0; i++)
    {
        r.any = true; unsigned d = digit(s[i], base);
        if(r.mag > (lim - d) / base) r.over = true; else if(!r.over) r.mag = r.mag * base + d;
    }
    r.stop = i; r.end = i == s.size();
    return r;
}
template <class T> static T value(const Reading& r)
{
    if(!r.any) return 0;
    if(r.over) return r.neg ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
    return r.neg ? (T)(0 - r.mag) : (T)r.mag;
}
static int state(const Reading& r) { return (r.any && !r.over ? 0 : ios::failbit) | (r.end ? ios::eofbit : 0); }

template <class F> static void in_base(F& f, unsigned base) { f.setf(base == 8 ? ios::oct : base == 16 ? ios::hex : ios::dec, ios::basefield); }

template <unsigned base, class T> static void one_by_one(Ctx& c, const std::string& s, const Reading& r)
{
    estd::iterated::num_get<base, char, estd::locale::classic_type> n;
    T v = 77; ios::iostate err = 0; size_t i = 0; bool done = false;
    for(; i < s.size(); i++) if(n.get(s[i], err, v)) { done = true; break; }
    CHECK(done == !r.end, "char by char: %s is %s", show(s).c_str(), done ? "done early" : "not done");
    CHECK(i == r.stop, "char by char: %s stops at %zu, expected %zu", show(s).c_str(), i, r.stop);
    int want = state(r) & ~ios::eofbit;
    if(r.end && !r.any) return;     // still open
    CHECK((int)err == want, "char by char: %s state %d, expected %d", show(s).c_str(), (int)err, want);
    CHECK(v == value<T>(r), "char by char: %s is %lld, expected %lld", show(s).c_str(), (long long)v, (long long)value<T>(r));
}

// text in exactly the memory it needs
struct Mem { char* p; Mem(const std::string& s) : p((char*)malloc(s.size())) { memcpy(p, s.data(), s.size()); } ~Mem() { free(p); } };

template <class T> static void number(Ctx& c, const std::string& s, unsigned base, bool streams)
{
    Reading r = read<T>(s, base);
    Mem m(s);
    static estd::layer1::istringstream<2> fmt; in_base(fmt, base);
    {
        T v = 77; ios::iostate err = 0;
        estd::num_get<char, const char*> n;
        const char* e = n.get(m.p, m.p + s.size(), fmt, err, v);
        CHECK(e - m.p == (long)r.stop, "number: %s base %u stops at %ld, expected %zu", show(s).c_str(), base, (long)(e - m.p), r.stop);
        CHECK((int)err == state(r), "number: %s base %u state %d, expected %d", show(s).c_str(), base, (int)err, state(r));
        CHECK(v == value<T>(r), "number: %s base %u is %lld, expected %lld", show(s).c_str(), base, (long long)v, (long long)value<T>(r));
        c.observe((uint64_t)v * 31 + err);
    }
    {
        T v = 77; ios::iostate err = 0;
        estd::num_get<char, const char*, estd::locale::classic_type> n;
        const char* e = n.get((const char*)m.p, (const char*)m.p + s.size(), base == 8 ? ios::oct : base == 16 ? ios::hex : ios::dec, err, v);
        CHECK(e - m.p == (long)r.stop && (int)err == state(r) && v == value<T>(r), "number: %s base %u by flags: %lld, state %d", show(s).c_str(), base, (long long)v, (int)err);
    }
    if(base == 8) one_by_one<8, T>(c, s, r); else if(base == 10) one_by_one<10, T>(c, s, r); else one_by_one<16, T>(c, s, r);
    if(!streams) return;
    {
        // behind whitespace, from a stream; what follows stays there
        estd::layer1::stringstream<48, false> in; in_base(in, base);
        in.rdbuf()->sputn(" \n", 2); in.rdbuf()->sputn(s.data(), s.size());
        size_t skip = 0; while(skip < s.size() && s[skip] && strchr(" \n\t", s[skip])) ++skip;
        Reading q = read<T>(s.substr(skip), base);
        T v = 77;
        in >> v;
        int st = in.rdstate(), want = state(q);
        if(skip == s.size()) { st &= ~ios::eofbit; want &= ~ios::eofbit; }
        CHECK(st == want, "stream: %s base %u state %d, expected %d", show(s).c_str(), base, st, want);
        CHECK(v == value<T>(q), "stream: %s base %u is %lld, expected %lld", show(s).c_str(), base, (long long)v, (long long)value<T>(q));
        std::string rest = s.substr(skip + q.stop);
        CHECK(in.rdbuf()->sgetc() == (rest.empty() ? -1 : (int)(unsigned char)rest[0]), "stream: %s leaves %d next", show(s).c_str(), (int)in.rdbuf()->sgetc());
        CHECK(in.rdbuf()->in_avail() == (rest.empty() ? -1 : (long)rest.size()), "stream: %s leaves %ld", show(s).c_str(), (long)in.rdbuf()->in_avail());
    }
}
template <class T> static void all_ways(Ctx& c, const std::string& s)
{
    for(unsigned base : { 8u, 10u, 16u }) number<T>(c, s, base, true);
}

static const char alphabet[] = { '0', '1', '7', '8', '9', 'a', 'F', 'g', '-', '+', '.', ' ', 'x', '\xff', '\0' };
template <class T> static void any_text(Ctx& c)
{
    int n = c.pick(c.bound + 1); std::string s; while(n--) s += c.of(alphabet);
    c.log("%s", show(s).c_str());
    all_ways<T>(c, s);
}
SCENARIO_FN(any_int8, any_text<int8_t>, 4, 5);
SCENARIO_FN(any_uint8, any_text<uint8_t>, 4, 5);
SCENARIO_FN(any_short, any_text<short>, 3, 4);
SCENARIO_FN(any_unsigned, any_text<unsigned>, 3, 4);
SCENARIO_FN(any_int, any_text<int>, 4, 5);
SCENARIO_FN(any_longlong, any_text<long long>, 3, 4);

// everything around the limits
template <class T> static void limits(Ctx& c)
{
    typedef std::numeric_limits<T> L;
    unsigned base = c.of(std::vector<unsigned>{ 8, 10, 16 });
    bool neg = c.flip();
    static const char* leads[] = { "", "0", "00000" }; std::string lead = c.of(leads);
    static const char* tails[] = { "", "0", "z", " 1", "-" }; std::string tail = c.of(tails);
    int span = c.thorough ? 600 : 120;
    for(int k = -span; k <= span; k++)
    {
        unsigned __int128 v = (unsigned __int128)(unsigned long long)L::max() + (neg && L::is_signed ? 1 : 0);
        if(k < 0 && v < (unsigned)-k) continue;
        v += k; std::string d;
        do { unsigned x = (unsigned)(v % base); d.insert(d.begin(), x < 10 ? '0' + x : (k & 1 ? 'A' : 'a') + x - 10); v /= base; } while(v);
        number<T>(c, (neg ? "-" : "") + lead + d + tail, base, k >= -3 && k <= 3);
    }
}
SCENARIO_FN(limits_int8, limits<int8_t>, 1, 1);
SCENARIO_FN(limits_uint8, limits<uint8_t>, 1, 1);
SCENARIO_FN(limits_int16, limits<int16_t>, 1, 1);
SCENARIO_FN(limits_uint16, limits<uint16_t>, 1, 1);
SCENARIO_FN(limits_int32, limits<int32_t>, 1, 1);
SCENARIO_FN(limits_uint32, limits<uint32_t>, 1, 1);
SCENARIO_FN(limits_long, limits<long>, 1, 1);
SCENARIO_FN(limits_ulong, limits<unsigned long>, 1, 1);
SCENARIO_FN(limits_int64, limits<long long>, 1, 1);
SCENARIO_FN(limits_uint64, limits<unsigned long long>, 1, 1);

// every 16-bit value, printed and read back
template <class T> static void round_trip(Ctx& c)
{
    int hi = c.pick(256); unsigned base = c.of(std::vector<unsigned>{ 8, 10, 16 });
    for(int lo = 0; lo < 256; lo++)
    {
        T v = (T)(hi * 256 + lo), w = 0;
        estd::layer1::stringstream<32> s;
        if(base == 16) s << estd::hex; else if(base == 8) s << estd::oct;
        in_base(s, base);
        s << v;
        s >> w;
        CHECK(w == v && (int)s.rdstate() == ios::eofbit, "round trip: %d comes back as %d, state %d", (int)v, (int)w, (int)s.rdstate());
        c.observe((uint64_t)(long long)w);
    }
}
SCENARIO_FN(round_trip_signed, round_trip<int16_t>, 1, 1);
SCENARIO_FN(round_trip_unsigned, round_trip<uint16_t>, 1, 1);

// ---------------------------------------------------------------------------
// numbers with a fraction
template <class T> static T correctly(const std::string& s);
template <> float correctly<float>(const std::string& s) { return strtof(s.c_str(), nullptr); }
template <> double correctly<double>(const std::string& s) { return strtod(s.c_str(), nullptr); }
template <class T> static void fractions(Ctx& c)
{
    static const char al[] = { '0', '1', '9', '5', '.', '-', ' ', 'e' };
    int n = c.pick(c.bound + 1); std::string s; while(n--) s += c.of(al);
    c.log("%s", show(s).c_str());
    size_t i = 0; bool neg = false, any = false, point = false;
    if(i < s.size() && s[i] == '-') { neg = true; ++i; }
    for(; i < s.size(); i++) { if(s[i] >= '0' && s[i] <= '9') any = true; else if(s[i] == '.' && !point) point = true; else break; }
    int want_state = (any ? 0 : ios::failbit) | (i == s.size() ? ios::eofbit : 0);
    T want = any ? correctly<T>(s.substr(0, i)) : 0;
    (void)neg;
    Mem m(s); estd::layer1::istringstream<2> fmt; estd::num_get<char, const char*> get;
    T v = 77; ios::iostate err = 0;
    const char* e = get.get(m.p, m.p + s.size(), fmt, err, v);
    CHECK(e - m.p == (long)i, "fraction: %s stops at %ld, expected %zu", show(s).c_str(), (long)(e - m.p), i);
    CHECK((int)err == want_state, "fraction: %s state %d, expected %d", show(s).c_str(), (int)err, want_state);
    CHECK(v == want, "fraction: %s is %.17g, expected %.17g", show(s).c_str(), (double)v, (double)want);
    c.observe(std::to_string(v));
}
SCENARIO_FN(fraction_float, fractions<float>, 6, 7);
SCENARIO_FN(fraction_double, fractions<double>, 6, 7);

// ---------------------------------------------------------------------------
// truth values
template <class Locale> static void truth(Ctx& c, const char* yes, const char* no, const std::vector<char>& al, int longest)
{
    int n = c.pick(longest + 1); std::string s; while(n--) s += c.of(al);
    c.log("%s", show(s).c_str());
    std::string names[] = { yes, no };
    int is = -1; for(int k = 0; k < 2; k++) if(s.compare(0, names[k].size(), names[k]) == 0) is = k;
    Mem m(s);
    estd::iterated::bool_get<char, Locale, true> n1;
    const char* p = m.p; const char* end = m.p + s.size();
    bool v = c.flip(); ios::iostate err = 0;
    int guard = 0;
    while(!n1.get(p, end, err, v)) CHECK(++guard < 20, "truth: never done");
    CHECK(v == (is == 0), "truth: %s is %d", show(s).c_str(), v);
    CHECK(((err & ios::failbit) != 0) == (is < 0), "truth: %s state %d", show(s).c_str(), (int)err);
    if(is >= 0) CHECK(p - m.p == (long)names[is].size(), "truth: %s stops at %ld", show(s).c_str(), (long)(p - m.p));
    c.observe((uint64_t)v * 16 + err);
}
SCENARIO(truth_names, 6, 7) { truth<estd::locale::classic_type>(c, "true", "false", { 't', 'r', 'u', 'e', 'f', 'a', 'l', 's' }, c.bound); }
SCENARIO(truth_own_names, 5, 7) { truth<my_locale>(c, "yes", "no", { 'y', 'e', 's', 'n', 'o', 't', '\0', '\xff' }, c.bound); }
SCENARIO(truth_stream, 4, 5)
{
    static const char al[] = { '0', '1', '2', '-', ' ', 't', 'f' };
    int n = c.pick(c.bound + 1); std::string s; while(n--) s += c.of(al);
    int named = c.pick(3); if(named) s = (named == 1 ? "true" : "false") + s;
    c.log("%s", show(s).c_str());
    estd::layer1::istringstream<16> in; in.rdbuf()->sputn(s.data(), s.size());
    static const ios::fmtflags bases[] = { ios::dec, ios::hex, ios::oct };
    ios::fmtflags base = named ? c.of(bases) : ios::dec;      // the base says nothing about a name
    if(named) { in.setf(base, ios::basefield); in.setf(ios::boolalpha); }
    bool v = c.flip();
    in >> v;
    size_t skip = 0; while(skip < s.size() && s[skip] == ' ') ++skip;
    bool ok = named ? true : skip < s.size() && (s[skip] == '0' || s[skip] == '1');
    bool want = named ? named == 1 : skip < s.size() && s[skip] != '0';
    CHECK(in.fail() == !ok, "truth: %s state %d", show(s).c_str(), (int)in.rdstate());
    if(ok) CHECK(v == want, "truth: %s is %d", show(s).c_str(), v);
    if(ok)
    {
        size_t used = named ? (named == 1 ? 4 : 5) : skip + 1;
        CHECK(in.rdbuf()->in_avail() == (used < s.size() ? (long)(s.size() - used) : -1), "truth: %s leaves %ld", show(s).c_str(), (long)in.rdbuf()->in_avail());
    }
    c.observe((uint64_t)v);
}

// several extractions from one text
SCENARIO(successive, 4, 5)
{
    static const char al[] = { '1', '9', '-', ' ', 'a', '\n' };
    int n = c.pick(5 + c.thorough) + 1; std::string s; while(n--) s += c.of(al);
    c.log("%s", show(s).c_str());
    estd::layer1::istringstream<16> in; in.rdbuf()->sputn(s.data(), s.size());
    size_t pos = 0;
    for(int d = 0; d < 4; d++)
    {
        size_t from = pos; while(from < s.size() && (s[from] == ' ' || s[from] == '\n')) ++from;
        int op = c.pick(3);
        if(op < 2)
        {
            Reading r = op ? read<uint8_t>(s.substr(from), 10) : read<short>(s.substr(from), 10);
            long got, want;
            if(op) { uint8_t v = 5; in >> v; got = v; want = value<uint8_t>(r); } else { short v = 5; in >> v; got = v; want = value<short>(r); }
            CHECK(got == want, "successive: %ld at %zu of %s, expected %ld", got, from, show(s).c_str(), want);
            CHECK(in.fail() == !(r.any && !r.over), "successive: state %d at %zu of %s", (int)in.rdstate(), from, show(s).c_str());
            pos = from + r.stop;
        }
        else
        {
            char ch = '?'; in >> ch;
            CHECK(in.fail() == (from == s.size()), "successive: state %d at %zu of %s", (int)in.rdstate(), from, show(s).c_str());
            if(from < s.size()) { CHECK(ch == s[from], "successive: '%c' at %zu of %s", ch, from, show(s).c_str()); pos = from + 1; } else pos = from;
        }
        c.observe(s.substr(pos));
        if(!in.good()) return;
        CHECK(in.rdbuf()->in_avail() == (pos < s.size() ? (long)(s.size() - pos) : -1), "successive: %ld left at %zu of %s", (long)in.rdbuf()->in_avail(), pos, show(s).c_str());
    }
}
#ifndef MC_DEVICE   // its traits are those of char only
// wide characters
SCENARIO(wide, 3, 4)
{
    int n = c.pick(c.bound + 1); std::string s; while(n--) s += c.of(alphabet);
    c.log("%s", show(s).c_str());
    std::vector<wchar_t> w; for(char ch : s) w.push_back((unsigned char)ch);
    wchar_t* m = (wchar_t*)malloc(w.size() * sizeof(wchar_t)); if(w.size()) memcpy(m, w.data(), w.size() * sizeof(wchar_t));
    estd::detail::basic_istream<estd::layer1::basic_stringbuf<wchar_t, 2>> fmt;
    for(unsigned base : { 8u, 10u, 16u })
    {
        in_base(fmt, base);
        Reading r = read<int8_t>(s, base);
        int8_t v = 77; ios::iostate err = 0; estd::num_get<wchar_t, const wchar_t*> g;
        const wchar_t* e = g.get(m, m + w.size(), fmt, err, v);
        CHECK(e - m == (long)r.stop && (int)err == state(r) && v == value<int8_t>(r), "wide: %s base %u is %d, stops at %ld, state %d", show(s).c_str(), base, v, (long)(e - m), (int)err);
    }
    free(m);
    c.observe(s);
}
#endif
