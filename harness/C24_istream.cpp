// Property C24: input stream operations extract exactly what they say.
// ALSO: DEVICE
#include <estd/istream.h>
#include <estd/ostream.h>
#include <estd/string.h>
#include <estd/sstream.h>
#include "mc.h"
using namespace mc;
static const int eof = -1;
static int code(char ch) { return (unsigned char)ch; }
static bool space(char ch) { return strchr(" \n\t\v\f\r", ch) && ch; }
typedef estd::ios_base ios;

static const char alphabet[] = { 'a', ' ', '\n', '\xff', '\0' };

// memory that is exactly n characters
struct Mem
{
    char* p; size_t n;
    explicit Mem(size_t n) : p((char*)malloc(n)), n(n) { memset(p, 0x7e, n); }
    ~Mem() { free(p); }
};

template <class S, bool end_seek> static void history(Ctx& c, S& in, const std::string& text)
{
    size_t pos = 0; int gcount = 0; bool counted = true;
    const size_t N = text.size();
    for(int d = 0;; d++)
    {
        CHECK((int)in.rdstate() == 0, "state: %d", (int)in.rdstate());
        CHECK(in.rdbuf()->in_avail() == (pos < N ? (long)(N - pos) : -1), "position: %ld left, expected %zu of %zu", (long)in.rdbuf()->in_avail(), N - pos, N);
        if(counted) CHECK(in.gcount() == gcount, "gcount: %d, expected %d", (int)in.gcount(), gcount);
        c.observe(text.substr(pos));
        if(d == c.bound || c.visited(text + '|' + (char)pos, c.bound - d)) return;
        int state = 0, care = ~0;
        size_t left = N - pos;
        counted = true;
        switch(c.pick(12))
        {
            case 0:
            {
                c.log("get"); int r = in.get();
                CHECK(r == (left ? code(text[pos]) : eof), "get: %d at %zu of %s", r, pos, show(text).c_str());
                gcount = left ? 1 : 0;
                if(left) ++pos; else state = ios::failbit | ios::eofbit;
                break;
            }
            case 1:
            {
                c.log("peek"); int r = in.peek();
                CHECK(r == (left ? code(text[pos]) : eof), "peek: %d at %zu of %s", r, pos, show(text).c_str());
                gcount = 0; if(!left) care = ~ios::eofbit;
                break;
            }
            case 2:
            {
                c.log("unget"); in.unget(); gcount = 0;
                if(pos) --pos; else state = ios::badbit;
                break;
            }
            case 3:
            {
                int n = c.pick((int)left + 3); c.log("read(%d)", n);
                Mem m(n); in.read(m.p, n);
                int k = (int)std::min<size_t>(n, left);
                CHECK(!memcmp(m.p, text.data() + pos, k), "read: wrong characters");
                for(int i = k; i < n; i++) CHECK(m.p[i] == 0x7e, "read: more than there are");
                gcount = k; pos += k; if(k < n) state = ios::failbit | ios::eofbit;
                break;
            }
            case 4:
            {
                int n = c.pick((int)left + 3); c.log("readsome(%d)", n);
                Mem m(n); int r = (int)in.readsome(m.p, n);
                int k = (int)std::min<size_t>(n, left);
                CHECK(r == k, "readsome: %d of %d with %zu left", r, n, left);
                CHECK(!memcmp(m.p, text.data() + pos, k), "readsome: wrong characters");
                gcount = k; pos += k; if(!left) state = ios::eofbit;
                break;
            }
            case 5: case 6:
            {
                int n = c.pick((int)left + 4); char delim = '\n'; bool given = c.flip();
                if(given) { static const char ds[] = { 'a', '\xff', '\0' }; delim = c.of(ds); }
                c.log("getline(%d, %d)", n, code(delim));
                Mem m(n);
                if(given) in.getline(m.p, n, delim); else in.getline(m.p, n);
                if(n == 0) { CHECK(in.gcount() <= 1, "getline: takes %d into no room", (int)in.gcount()); return; }     // nothing may be written; what it does besides is open
                std::string line; gcount = 0;
                for(;;)
                {
                    if(pos == N) { state |= ios::eofbit; if(!gcount) state |= ios::failbit; break; }
                    if(text[pos] == delim) { ++pos; ++gcount; break; }
                    if((int)line.size() + 1 == n) { state |= ios::failbit; break; }
                    line += text[pos++]; ++gcount;
                }
                CHECK(!memcmp(m.p, line.data(), line.size()) && m.p[line.size()] == 0, "getline: expected %s", show(line).c_str());
                for(int i = (int)line.size() + 1; i < n; i++) CHECK(m.p[i] == 0x7e, "getline: writes past the line");
                break;
            }
            case 7:
            {
                int n = c.pick((int)left + 3) - 1, k = n < 0 ? 1 : n; c.log("ignore(%d)", n);
                if(n < 0) in.ignore(); else in.ignore(n);
                gcount = (int)std::min<size_t>(k, left); pos += gcount; if(gcount < k) state = ios::eofbit;
                break;
            }
            case 8:
            {
                int n = c.pick((int)left + 2); static const int ds[] = { '\n', 0xff, eof, 0 }; int delim = c.of(ds); c.log("ignore(%d, %d)", n, delim);
                in.ignore(n, delim);
                gcount = 0;
                while(gcount < n)
                {
                    if(pos == N) { state = ios::eofbit; break; }
                    ++gcount;
                    if(code(text[pos++]) == delim) break;
                }
                break;
            }
            case 9:
            {
                size_t to = c.pick((int)N + 1); int way = c.pick(end_seek ? 3 : 2); c.log("seekg to %zu way %d", to, way);
                if(way == 0) in.seekg((long)to, ios::beg); else if(way == 1) in.seekg((long)to - (long)pos, ios::cur); else in.seekg((long)to - (long)N, ios::end);
                pos = to; counted = false;
                break;
            }
            case 10:
            {
                c.log(">> char"); char ch = 'q'; in >> ch; counted = false;
                while(pos < N && space(text[pos])) ++pos;
                if(pos == N) { state = ios::failbit | ios::eofbit; CHECK(ch == 'q', "char: %d from nothing", ch); }
                else { CHECK(ch == text[pos], "char: %d at %zu of %s", ch, pos, show(text).c_str()); ++pos; }
                break;
            }
            case 11:
            {
                c.log(">> string"); estd::layer1::string<3> s; s += 'z'; counted = false;
                in >> s;
                while(pos < N && space(text[pos])) ++pos;
                size_t from = pos;
                while(pos < N && !space(text[pos]) && pos - from < 2) ++pos;
                std::string want = text.substr(from, pos - from), got; for(size_t i = 0; i < (size_t)s.size(); i++) got += (char)s[i];
                bool nul = want.find('\0') != std::string::npos;    // a null terminated string cannot hold it
                if(!nul) CHECK(got == want, "string: %s, expected %s from %s", show(got).c_str(), show(want).c_str(), show(text).c_str());
                if(pos == N) state |= ios::eofbit;
                if(from == pos) state |= ios::failbit;
                if(want.size() == 2) care = ~ios::eofbit;
                if(nul) return;
                break;
            }
        }
        CHECK(((int)in.rdstate() & care) == (state & care), "state: %d, expected %d", (int)in.rdstate(), state);
        CHECK(in.good() == (in.rdstate() == 0) && in.fail() == ((in.rdstate() & (ios::failbit | ios::badbit)) != 0) && in.eof() == ((in.rdstate() & ios::eofbit) != 0) && in.bad() == ((in.rdstate() & ios::badbit) != 0), "state: good/fail/eof/bad at %d", (int)in.rdstate());
        in.clear();
    }
}

static std::string any_text(Ctx& c, int longest)
{
    int n = c.pick(longest + 1); std::string s;
    while(n--) s += c.of(alphabet);
    c.log("text %s", show(s).c_str());
    return s;
}

template <class S> static S& unconst(S& s) { return s; }
static void from_string(Ctx& c, int len)
{
    std::string text = any_text(c, len);
    typedef estd::layer1::istringstream<8, false> S; typedef Fixed<S, 1> F; F::fill(0xA5);
    Own<S> s(F::make()); s->rdbuf()->sputn(text.data(), text.size());
    history<S, true>(c, *s, text);
    CHECK(F::intact(), "outside: wrote outside the stream");
}
SCENARIO(string_stream, 3, 4) { from_string(c, 4 + c.thorough); }
SCENARIO(string_stream_deep, 4, 6) { from_string(c, 3 + c.thorough); }
SCENARIO(span_stream, 3, 4)
{
    std::string text = any_text(c, 4 + c.thorough); Mem m(text.size()); memcpy(m.p, text.data(), m.n);
    estd::detail::ispanstream s(estd::span<char>(m.p, m.n));
    history<estd::detail::ispanstream, false>(c, s, text);
}
// counts and texts for which one byte does not suffice
template <class S> static void long_history(Ctx& c, S& in, const std::string& text, size_t delim_at)
{
    size_t pos = 0; const size_t N = text.size();
    static const int counts[] = { 1, 127, 128, 255, 256, 257, 300, 511, 512, 513, 699, 700, 701, 1000 };
    for(int d = 0;; d++)
    {
        CHECK(in.rdbuf()->in_avail() == (pos < N ? (long)(N - pos) : -1), "position: %ld left, expected %zu of %zu", (long)in.rdbuf()->in_avail(), N - pos, N);
        c.observe((uint64_t)pos);
        if(d == c.bound || c.visited(std::to_string(delim_at) + "|" + std::to_string(pos), c.bound - d)) return;
        int state = 0; size_t left = N - pos; int n = c.of(counts); int gcount = 0;
        switch(c.pick(6))
        {
            case 0:
            {
                c.log("read(%d)", n); Mem m(n); in.read(m.p, n); int k = (int)std::min<size_t>(n, left);
                CHECK(!memcmp(m.p, text.data() + pos, k), "read: wrong characters");
                for(int i = k; i < n; i++) CHECK(m.p[i] == 0x7e, "read: more than there are");
                gcount = k; pos += k; if(k < n) state = ios::failbit | ios::eofbit;
                break;
            }
            case 1:
            {
                c.log("readsome(%d)", n); Mem m(n); int r = (int)in.readsome(m.p, n); int k = (int)std::min<size_t>(n, left);
                CHECK(r == k, "readsome: %d of %d with %zu left", r, n, left);
                CHECK(!memcmp(m.p, text.data() + pos, k), "readsome: wrong characters");
                gcount = k; pos += k; if(!left) state = ios::eofbit;
                break;
            }
            case 2:
            {
                c.log("getline(%d)", n); Mem m(n); in.getline(m.p, n);
                size_t from = pos, len = 0;
                for(;;)
                {
                    if(pos == N) { state |= ios::eofbit; if(!gcount) state |= ios::failbit; break; }
                    if(text[pos] == '\n') { ++pos; ++gcount; break; }
                    if((int)len + 1 == n) { state |= ios::failbit; break; }
                    ++len; ++pos; ++gcount;
                }
                CHECK(!memcmp(m.p, text.data() + from, len) && m.p[len] == 0, "getline: wrong line of %zu from %zu", len, from);
                for(int i = (int)len + 1; i < n; i++) CHECK(m.p[i] == 0x7e, "getline: writes past the line");
                break;
            }
            case 3: c.log("ignore(%d)", n); in.ignore(n); gcount = (int)std::min<size_t>(n, left); pos += gcount; if(gcount < n) state = ios::eofbit; break;
            case 4:
            {
                c.log("ignore(%d, newline)", n); in.ignore(n, '\n');
                while(gcount < n) { if(pos == N) { state = ios::eofbit; break; } ++gcount; if(text[pos++] == '\n') break; }
                break;
            }
            case 5:
            {
                size_t to = (size_t)n <= N ? n : 0; int way = c.pick(2); c.log("seekg to %zu way %d", to, way);
                if(way == 0) in.seekg((long)to, ios::beg); else in.seekg((long)to - (long)pos, ios::cur);
                pos = to; gcount = -1;
                break;
            }
        }
        CHECK((int)in.rdstate() == state, "state: %d, expected %d", (int)in.rdstate(), state);
        if(gcount >= 0) CHECK(in.gcount() == gcount, "gcount: %d, expected %d", (int)in.gcount(), gcount);
        in.clear();
    }
}
static std::string long_text(Ctx& c, size_t& at)
{
    static const int where[] = { -1, 0, 126, 127, 254, 255, 256, 257, 299, 300, 511, 512, 699 };
    std::string s; for(int i = 0; i < 700; i++) s += (char)('a' + i % 23);
    int w = c.of(where); if(w >= 0) s[w] = '\n';
    at = w + 1; c.log("700 characters, newline at %d", w); return s;
}
SCENARIO(long_string_stream, 2, 3)
{
    size_t at; std::string text = long_text(c, at);
    typedef estd::layer1::istringstream<800, false> S; typedef Fixed<S, 2> F; F::fill(0xA5);
    Own<S> s(F::make()); s->rdbuf()->sputn(text.data(), text.size());
    long_history(c, *s, text, at);
    CHECK(F::intact(), "outside: wrote outside the stream");
}
SCENARIO(long_span_stream, 2, 3)
{
    size_t at; std::string text = long_text(c, at); Mem m(text.size()); memcpy(m.p, text.data(), m.n);
    estd::detail::ispanstream s(estd::span<char>(m.p, m.n));
    long_history(c, s, text, at);
}
SCENARIO(const_span_stream, 2, 3)
{
    std::string text = any_text(c, 3); Mem m(text.size()); memcpy(m.p, text.data(), m.n);
    typedef estd::detail::basic_ispanstream<const char> S;
    S s(estd::span<const char>(m.p, m.n));
    // only what is offered for constant characters
    std::string got; int r;
    while(s.peek() != eof) { r = s.get(); got += (char)r; }
    CHECK(got == text, "text: %s, expected %s", show(got).c_str(), show(text).c_str());
    c.observe(got);
}

// ---------------------------------------------------------------------------
// Input arriving in pieces.  Between pieces it is not known whether more will come.
struct PiecesImpl : estd::internal::impl::streambuf_base<estd::char_traits<char>>
{
    std::string text; std::vector<size_t> stops; // ends of the pieces, last one is the end
    size_t pos = 0, piece = 0; int patience = 0, waited = 0;
    size_t end() const { return stops[piece]; }
    bool last() const { return piece + 1 == stops.size(); }
    estd::streamsize xin_avail() const { return end() - pos; }
    estd::streamsize showmanyc() const
    {
        if(pos < end()) return end() - pos;
        if(last()) return -1;
        if(patience)
        {
            PiecesImpl* me = const_cast<PiecesImpl*>(this);
            if(++me->waited >= patience) { me->waited = 0; ++me->piece; return end() - pos; }
        }
        return 0;
    }
    char xsgetc() const { return text[pos]; }
    estd::streamsize xsgetn(char* s, estd::streamsize n) { n = std::min<long>(n, xin_avail()); memcpy(s, text.data() + pos, n); pos += n; return n; }
    void gbump(int n) { pos += n; }
    int_type sungetc() { if(!pos) { current->soft("unget: put back more than was taken"); return traits_type::eof(); } return traits_type::to_int_type(text[--pos]); }
};
typedef estd::internal::streambuf<PiecesImpl> Pieces;

static std::vector<std::string> tokens(const std::string& t)
{
    std::vector<std::string> v; std::string w;
    for(char ch : t + ' ') if(space(ch)) { if(!w.empty()) v.push_back(w); w.clear(); } else w += ch;
    return v;
}
static void pieces_of(Ctx& c, PiecesImpl& p, int longest)
{
    int n = 1 + c.pick(longest);
    static const char al[] = { 'a', ' ', 'b' };
    for(int i = 0; i < n; i++) p.text += al[c.pick(i && p.text[i - 1] == 'a' ? 3 : 2)];
    for(int i = 1; i < n; i++) if(c.flip()) p.stops.push_back(i);
    p.stops.push_back(n);
    std::string how; size_t at = 0; for(size_t s : p.stops) { how += show(p.text.substr(at, s - at)) + " "; at = s; }
    c.log("%s", how.c_str());
}
static void compare(Ctx& c, const std::vector<std::string>& got, const std::vector<std::string>& want)
{
    std::string a, b; for(auto& s : got) a += s + ","; for(auto& s : want) b += s + ",";
    CHECK(a == b, "words: %s, expected %s", a.c_str(), b.c_str());
    c.observe(a);
}

// not waiting: no word is ever torn apart, whatever the pieces
SCENARIO_SHARDED(pieces_nonblocking, 2, 3, 2, 8)
{
    typedef estd::internal::flagged_istream<Pieces, estd::internal::istream_flags::non_blocking> S;
    S in; PiecesImpl& p = *in.rdbuf();
    pieces_of(c, p, 5 + 2 * c.bound);
    auto want = tokens(p.text);
    std::vector<std::string> got;
    for(int guard = 0;; guard++)
    {
        CHECK(guard < 100, "stuck: no end of words");
        estd::layer1::string<32> s;
        size_t at = p.pos;
        in >> s;
        c.flush();
        int st = in.rdstate();
        if(st & ios::nodatabit)
        {
            CHECK(!(st & ~ios::nodatabit), "state: %d while waiting", st);
            CHECK(p.pos == p.end() || !p.last(), "waiting: although input has ended");
            size_t back = at; while(back < p.end() && space(p.text[back])) ++back;
            CHECK(p.pos == back, "waiting: at %zu, the unfinished word starts at %zu", p.pos, back);
            in.clear(); ++p.piece;
            continue;
        }
        if(st & ios::failbit) { CHECK(st & ios::eofbit, "state: %d", st); break; }
        got.push_back(std::string(s.data(), s.size()));
        if(st) { CHECK(st == ios::eofbit, "state: %d", st); break; }
    }
    CHECK(p.last() && p.pos == p.text.size(), "end: at %zu of %zu", p.pos, p.text.size());
    compare(c, got, want);
}

// waiting: pieces make no difference at all
template <unsigned flags> static void waiting(Ctx& c)
{
    typedef estd::internal::flagged_istream<Pieces, flags> S;
    S in; PiecesImpl& p = *in.rdbuf();
    p.patience = 1 + c.pick(2);
    pieces_of(c, p, 4 + 2 * c.bound);
    std::vector<std::string> got, want = tokens(p.text);
    for(int guard = 0; guard < 100; guard++)
    {
        estd::layer1::string<32> s;
        in >> s;
        int st = in.rdstate();
        CHECK(!(st & ~(ios::failbit | ios::eofbit)), "state: %d", st);
        if(st & ios::failbit) break;
        got.push_back(std::string(s.data(), s.size()));
        if(st) break;
    }
    CHECK(p.last() && p.pos == p.text.size(), "end: at %zu of %zu", p.pos, p.text.size());
    compare(c, got, want);
}
SCENARIO_FN_SHARDED(pieces_blocking, waiting<estd::internal::istream_flags::blocking>, 2, 3, 2, 8);
