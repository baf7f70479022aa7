// Property C20: formatted output.
// ALSO: DEVICE
#include <estd/istream.h>
#include <estd/ostream.h>
#include <estd/string.h>
#include <estd/sstream.h>
#include <estd/iomanip.h>
#include <estd/locale.h>
#include <estd/internal/streambuf.h>
#include "mc.h"
#include <limits>
#include <set>
using namespace mc;
typedef estd::ios_base ios;

static std::string digits(bool negative, unsigned long long magnitude, unsigned base, bool upper)
{
    std::string s;
    do { unsigned d = magnitude % base; s.insert(s.begin(), (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10)); magnitude /= base; } while(magnitude);
    if(negative) s.insert(s.begin(), '-');
    return s;
}
template <class T> static std::string spell(T v, unsigned base, bool upper)
{
    bool neg = v < 0;
    return digits(neg, neg ? 0ULL - (unsigned long long)(long long)v : (unsigned long long)v, base, upper);
}
static std::string padded(const std::string& s, unsigned width, char fill, bool left)
{
    std::string p(width > s.size() ? width - s.size() : 0, fill);
    return left ? s + p : p + s;
}
template <class T> static const std::vector<T>& interesting(int bits)
{
    static std::vector<T> v;
    if(v.empty())
    {
        typedef std::numeric_limits<T> L; std::set<T> s;
        if((int)sizeof(T) * 8 <= bits) for(int i = L::min(); i <= L::max(); i++) s.insert((T)i);
        else
        {
            for(int i = -3; i <= 12; i++) s.insert((T)i);
            for(unsigned base : { 2u, 8u, 10u, 16u })
                for(unsigned long long p = 1;; p *= base)
                {
                    for(long long k = -1; k <= 1; k++) { s.insert((T)(p + k)); if(std::is_signed<T>::value) s.insert((T)(0 - p - k)); }
                    if(p > (unsigned long long)L::max() / base) break;
                }
            s.insert(L::min()); s.insert(L::max());
        }
        v.assign(s.begin(), s.end());
    }
    return v;
}

struct Spec { int base; bool upper, left, right; char fill; unsigned width; };
static Spec pick_spec(Ctx& c)
{
    static const int bases[] = { 8, 10, 16 };
    static const char fills[] = { ' ', '0', '*', '?', '@', 'A', '_' };
    Spec s; s.base = c.of(bases); s.upper = c.flip();
    int a = c.pick(3); s.left = a == 1; s.right = a == 2;     // 0: neither
    s.fill = c.of(fills); s.width = c.pick(16);
    c.log("base %d upper %d align %d fill '%c' width %u", s.base, s.upper, a, s.fill, s.width);
    return s;
}
template <class S> static void configure(S& out, const Spec& s)
{
    out.setf(s.base == 8 ? ios::oct : s.base == 10 ? ios::dec : ios::hex, ios::basefield);
    if(s.upper) out.setf(ios::uppercase); else out.unsetf(ios::uppercase);
    out.setf(s.left ? ios::left : s.right ? ios::right : (ios::fmtflags)0, ios::adjustfield);
    out.fill(s.fill);
}
template <class B> static std::string text_of(const B& b) { auto& s = b.str(); std::string r; for(size_t i = 0; i < (size_t)s.size(); i++) r += (char)s[i]; return r; }

template <class T> static void stream_integers(Ctx& c)
{
    Spec s = pick_spec(c);
    estd::layer1::ostringstream<64> out; configure(out, s);
    bool few = c.thorough && sizeof(T) == 2;   // every value: fewer outcomes to remember
    for(T v : interesting<T>(c.thorough ? 16 : 8))
    {
        out.rdbuf()->clear();
        out.width(s.width);
        out << v;
        std::string want = padded(spell(v, s.base, s.upper), s.width, s.fill, s.left), got = text_of(*out.rdbuf());
        CHECK(got == want, "integer: %lld is %s, expected %s", (long long)v, show(got).c_str(), show(want).c_str());
        CHECK(out.width() == 0, "width: %d after an integer", (int)out.width());
        CHECK(out.good(), "state: %d", (int)out.rdstate());
        CHECK(out.fill() == s.fill, "fill: %d", (int)out.fill());
        if(!few || v % 97 == 0) c.observe(got);
        // through the facet, into a plain character array; the padding width is kept
        char buf[64]; memset(buf, 0x7e, sizeof buf);
        out.width(s.width);
        char* end = estd::num_put<char, char*>::put(buf + 1, out, s.fill, v);
        got.assign(buf + 1, end);
        CHECK(got == want, "num_put: %lld is %s, expected %s", (long long)v, show(got).c_str(), show(want).c_str());
        CHECK(buf[0] == 0x7e && *end == 0x7e, "num_put: writes elsewhere");
        CHECK((unsigned)out.width() == s.width, "num_put: width %d", (int)out.width());
        out.width(0);
    }
}
SCENARIO_FN(int8, stream_integers<int8_t>, 1, 1);
SCENARIO_FN(uint8, stream_integers<uint8_t>, 1, 1);
SCENARIO_FN_SHARDED(int16, stream_integers<int16_t>, 1, 1, 1, 8);
SCENARIO_FN_SHARDED(uint16, stream_integers<uint16_t>, 1, 1, 1, 8);
SCENARIO_FN(int32, stream_integers<int>, 1, 1);
SCENARIO_FN(uint32, stream_integers<unsigned>, 1, 1);
SCENARIO_FN(slong, stream_integers<long>, 1, 1);
SCENARIO_FN(ulong_, stream_integers<unsigned long>, 1, 1);
SCENARIO_FN(int64, stream_integers<long long>, 1, 1);
SCENARIO_FN(uint64, stream_integers<unsigned long long>, 1, 1);

SCENARIO(characters, 1, 1)
{
    Spec s = pick_spec(c);
    estd::layer1::ostringstream<64> out; configure(out, s);
    for(int v = 1; v < 256; v++)
    {
        out.rdbuf()->clear(); out.width(s.width); out << (char)v;
        std::string want = padded(std::string(1, (char)v), s.width, s.fill, s.left), got = text_of(*out.rdbuf());
        CHECK(got == want, "character: %d is %s, expected %s", v, show(got).c_str(), show(want).c_str());
        CHECK(out.width() == 0, "width: %d after a character", (int)out.width());
        CHECK(out.good(), "state: %d", (int)out.rdstate());
    }
    // truth values
    for(int v = 0; v < 2; v++) for(int alpha = 0; alpha < 2; alpha++)
    {
        if(alpha) out.setf(ios::boolalpha); else out.unsetf(ios::boolalpha);
        char buf[16]; memset(buf, 0x7e, sizeof buf);
        char* end = estd::num_put<char, char*>::put(buf, out, s.fill, (bool)v);
        std::string got(buf, end), want = alpha ? (v ? "true" : "false") : (v ? "1" : "0");
        CHECK(got == want, "truth: %s, expected %s", show(got).c_str(), show(want).c_str());
        CHECK(*end == 0x7e, "truth: writes elsewhere");
    }
    c.observe((uint64_t)s.width * 1000 + s.fill);
}

// ---------------------------------------------------------------------------
// Any sequence of settings and output into little room
template <class S> static void sequence(Ctx& c, S& out, size_t room, const std::function<std::string()>& text)
{
    std::string m; bool lost = false;
    int base = 10; bool upper = false, left = false; char fill = ' '; unsigned width = 0;
    auto put = [&](const std::string& s) { size_t k = std::min(s.size(), room - m.size()); m += s.substr(0, k); if(k < s.size()) lost = true; };
    for(int d = 0;; d++)
    {
        std::string got = text();
        CHECK(got == m, "text: %s, expected %s", show(got).c_str(), show(m).c_str());
        CHECK(out.good() == !lost, "state: %d with %s", (int)out.rdstate(), lost ? "text lost" : "nothing lost");
        CHECK((unsigned)out.width() == width && out.fill() == fill, "setting: width %d fill %d", (int)out.width(), (int)out.fill());
        c.observe(got);
        if(d == c.bound) return;
        std::string key = m + '|' + (char)lost + (char)base + (char)upper + (char)left + fill + (char)width;
        if(c.visited(key, c.bound - d)) return;
        if(out.good()) CHECK((size_t)(long)out.tellp() == m.size(), "tell: %ld of %zu", (long)out.tellp(), m.size());
        else if(out.fail()) CHECK((long)out.tellp() == -1, "tell: %ld though failed", (long)out.tellp());
        switch(c.pick(17))
        {
            case 0: c.log("hex"); out << estd::hex; base = 16; break;
            case 1: c.log("oct"); out << estd::oct; base = 8; break;
            case 2: c.log("setbase 10"); out << estd::setbase(10); base = 10; break;
            case 3: c.log("setbase 16"); out << estd::setbase(16); base = 16; break;
            case 4: c.log("uppercase"); out.setf(ios::uppercase); upper = true; break;
            case 5: c.log("left"); out.setf(ios::left, ios::adjustfield); left = true; break;
            case 6: c.log("right"); out.setf(ios::right, ios::adjustfield); left = false; break;
            case 7: fill = c.flip() ? '0' : '_'; c.log("setfill %c", fill); out << estd::setfill(fill); break;
            case 8: { static const unsigned w[] = { 1, 3, 5, 15 }; width = c.of(w); c.log("setw %u", width); out << estd::setw(width); break; }
            case 9: { static const int v[] = { -171, 0, 9, 172 }; int x = c.of(v); c.log("<< %d", x); out << x; put(padded(spell(x, base, upper), width, fill, left)); width = 0; break; }
            case 10: { c.log("<< uint8 200"); out << (uint8_t)200; put(padded(spell(200, base, upper), width, fill, left)); width = 0; break; }
            case 11: { c.log("<< 'x'"); out << 'x'; put(padded("x", width, fill, left)); width = 0; break; }
            case 12: { c.log("<< \"ab\""); out << "ab"; put("ab"); break; }
            case 13: { c.log("<< string"); estd::layer1::string<8> s; s += "cde"; out << s; put("cde"); break; }
            case 14: { c.log("<< const string"); estd::layer2::const_string s("f"); out << s; put("f"); break; }
            case 15: { c.log("<< endl"); out << estd::endl; put("\n"); break; }
            case 16: { c.log("write"); out.write("g\xffh", c.pick(4)); put(std::string("g\xffh", c.sh->choice[c.sh->len - 1])); break; }
        }
    }
}
SCENARIO(sequence_string, 5, 6)
{
    typedef estd::layer1::ostringstream<7> S; typedef Fixed<S, 1> F; F::fill(0xA5);
    Own<S> s(F::make());
    sequence(c, *s, 6, [&] { return text_of(*s->rdbuf()); });
    CHECK(F::intact(), "outside: wrote outside the stream");
}
SCENARIO(sequence_span, 5, 6)
{
    const size_t N = 6; char* mem = (char*)malloc(N); memset(mem, 0x7e, N);
    {
        estd::detail::ospanstream s(estd::span<char>(mem, N));
        sequence(c, s, N, [&] { return std::string(mem, (size_t)s.rdbuf()->pos()); });
        for(size_t i = s.rdbuf()->pos(); i < N; i++) CHECK(mem[i] == 0x7e, "span: wrote at %zu", i);
    }
    free(mem);
}
// through the traditional interface
SCENARIO(sequence_virtual, 6, 8)
{
    estd::layer1::stringbuf<7> b; estd::internal::basic_streambuf_wrapped<estd::layer1::stringbuf<7>&> w(b);
    estd::basic_streambuf<char>* p = &w;
    struct Out : estd::ostream { Out(estd::basic_streambuf<char>* p) : estd::ostream(p) {} } s(p);
    std::string m; bool lost = false;
    for(int d = 0;; d++)
    {
        CHECK(text_of(b) == m, "text: %s, expected %s", show(text_of(b)).c_str(), show(m).c_str());
        CHECK(s.good() == !lost, "state: %d with %s", (int)s.rdstate(), lost ? "text lost" : "nothing lost");
        c.observe(m);
        if(d == c.bound || c.visited(m + (char)lost, c.bound - d)) return;
        auto put = [&](const std::string& t) { size_t k = std::min(t.size(), 6 - m.size()); m += t.substr(0, k); if(k < t.size()) lost = true; };
        switch(c.pick(4))
        {
            case 0: c.log("<< 'x'"); s << 'x'; put("x"); break;
            case 1: c.log("<< string"); s << "abc"; put("abc"); break;
            case 2: c.log("<< -12"); s << -12; put("-12"); break;
            case 3: c.log("<< '\\xff'"); s << '\xff'; put("\xff"); break;
        }
    }
}

// flushing reaches what lies behind a buffer
SCENARIO(flushing, 5, 7)
{
    typedef estd::internal::out_buffered_stringbuf<estd::layer1::stringbuf<128>, 8> B;
    estd::detail::basic_ostream<B> s;
    std::string m; bool unit = false;
    for(int d = 0; d < c.bound; d++)
    {
        bool flushed = false, out = true;
        switch(c.pick(7))
        {
            case 0: c.log("<< 'x'"); s << 'x'; m += 'x'; break;
            case 1: c.log("<< string"); s << "abc"; m += "abc"; break;
            case 2: c.log("<< -12345678"); s << -12345678; m += "-12345678"; break;
            case 3: c.log("endl"); s << estd::endl; m += '\n'; flushed = true; break;
            case 4: c.log("flush"); s.flush(); flushed = true; break;
            case 5: c.log("unitbuf"); estd::unitbuf(s); unit = true; out = false; break;
            case 6: c.log("nounitbuf"); estd::nounitbuf(s); unit = false; out = false; break;
        }
        std::string there = text_of(s.rdbuf()->rdbuf());
        CHECK(m.substr(0, there.size()) == there, "delivered: %s of %s", show(there).c_str(), show(m).c_str());
        if(flushed || (unit && out)) CHECK(there == m, "flush: %s of %s", show(there).c_str(), show(m).c_str());
        CHECK(m.size() - there.size() <= 8, "held: %zu", m.size() - there.size());
        CHECK(s.good(), "state: %d", (int)s.rdstate());
        c.observe(there + '|' + m);
    }
}

// a flush that does not get through is told of
struct Stuck { typedef char char_type; typedef estd::char_traits<char> traits_type; typedef int int_type; typedef long pos_type; typedef long off_type;
    int answer = 0; mutable int syncs = 0; std::string text;
    int_type sputc(char c) { text += c; return (unsigned char)c; } estd::streamsize sputn(const char* s, estd::streamsize n) { text.append(s, n); return n; }
    int pubsync() { ++syncs; return answer; } pos_type pubseekoff(off_type, ios::seekdir, ios::openmode) { return (long)text.size(); } };
SCENARIO(stuck, 4, 6)
{
    estd::detail::basic_ostream<Stuck> s; Stuck& b = *s.rdbuf(); bool bad = false, unit = false; std::string m; int syncs = 0;
    for(int d = 0; d < c.bound; d++)
    {
        bool out = false, flush = false; b.answer = c.flip() ? -1 : 0;
        switch(c.pick(6))
        {
            case 0: c.log("flush"); s.flush(); flush = true; break;
            case 1: c.log("endl"); s << estd::endl; m += '\n'; flush = true; out = true; break;
            case 2: c.log("<< 12"); s << 12; m += "12"; out = true; break;
            case 3: c.log("write"); s.write("abc", 3); m += "abc"; out = true; break;
            case 4: c.log("unitbuf"); estd::unitbuf(s); unit = true; break;
            case 5: c.log("nounitbuf"); estd::nounitbuf(s); unit = false; break;
        }
        bool should = flush || (unit && out && !bad);
        CHECK((b.syncs > syncs) == should, "flush: %d times, %s", b.syncs - syncs, should ? "expected" : "not expected"); syncs = b.syncs;
        if(should && b.answer) bad = true;
        CHECK(s.bad() == bad, "state: bad is %d, expected %d", (int)s.bad(), bad); CHECK(!s.eof(), "state: %d", (int)s.rdstate()); CHECK(b.text == m, "text: %s, expected %s", show(b.text).c_str(), show(m).c_str());
        c.observe(std::to_string(bad) + std::to_string(unit) + std::to_string(should));
    }
}
// any base other than the three is decimal
SCENARIO(bases, 1, 1)
{
    int before = c.pick(3), n = c.pick(38) - 1; static const int v[] = {0, 7, 8, 10, 15, 16, -1, -255, 2147483647}; int x = c.of(v);
    estd::layer1::ostringstream<40> out; if(before == 1) out << estd::hex; if(before == 2) out << estd::oct; out << estd::setbase(n) << x;
    std::string want = spell(x, n == 8 ? 8 : n == 16 ? 16 : 10, false), got = text_of(*out.rdbuf()); CHECK(got == want, "base: %d in base %d is %s, expected %s", x, n, show(got).c_str(), show(want).c_str()); CHECK(out.good(), "state"); c.observe(got);
}
