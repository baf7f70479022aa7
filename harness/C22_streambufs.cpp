// Property C22: a stream buffer over memory is a window onto a text.
// ALSO: DEVICE
// ALSO: -std=gnu++20
#include <estd/istream.h>
#include <estd/ostream.h>
#include <estd/string.h>
#include <estd/sstream.h>
#include <estd/streambuf.h>
#include <estd/internal/streambuf.h>
#include "mc.h"
#include <memory>
using namespace mc;

static const int eof = -1;
static int code(char ch) { return (unsigned char)ch; }
template <class T> struct Exact
{
    T* p; size_t n;
    explicit Exact(size_t n) : p((T*)malloc(n * sizeof(T))), n(n) {}
    ~Exact() { free(p); }
};

// ---------------------------------------------------------------------------
// strings: written at the end, read from a position of their own
template <class B> static void string_state(Ctx& c, B& b, const std::string& text, size_t pos)
{
    typename B::impl_type::string_type& s = b.str_;
    std::string got; for(size_t i = 0; i < (size_t)s.size(); i++) got += (char)s[i];
    CHECK(got == text, "text: %s, expected %s", show(got).c_str(), show(text).c_str());
    CHECK((size_t)b.pos() == pos, "position: %u, expected %zu", (unsigned)b.pos(), pos);
    size_t left = text.size() - pos;
    CHECK(b.in_avail() == (left ? (long)left : -1), "available: %ld of %zu", (long)b.in_avail(), left);
    CHECK(b.sgetc() == (left ? code(text[pos]) : eof), "peek: %d at %zu of %s", (int)b.sgetc(), pos, show(text).c_str());
    CHECK(const_cast<const B&>(b).sgetc() == (left ? code(text[pos]) : eof), "peek: const %d", (int)b.sgetc());
    CHECK((size_t)b.pubseekoff(0, estd::ios_base::cur, estd::ios_base::out) == text.size(), "tell: written");
    CHECK((size_t)b.pubseekoff(0, estd::ios_base::cur, estd::ios_base::in) == pos, "tell: read");
}

template <class B> static void string_history(Ctx& c, B& b, size_t room, const std::vector<char>& alphabet, const std::function<bool()>& intact, std::string text)
{
    size_t pos = 0;
    for(int d = 0;; d++)
    {
        string_state(c, b, text, pos);
        CHECK(intact(), "outside: wrote outside the object");
        c.observe(text);
        if(d == c.bound || c.visited(text + '|' + (char)pos, c.bound - d)) return;
        size_t left = text.size() - pos;
        switch(c.pick(9))
        {
            case 0:
            {
                char ch = c.of(alphabet); c.log("sputc(%d)", code(ch));
                int r = b.sputc(ch);
                if(text.size() < room) { text += ch; CHECK(r == code(ch), "put: gives %d for %d", r, code(ch)); }
                else CHECK(r == eof, "put: gives %d when full", r);
                break;
            }
            case 1:
            {
                int n = c.pick((int)room + 2);
                Exact<char> s(n); for(int i = 0; i < n; i++) s.p[i] = alphabet[(i + text.size()) % alphabet.size()];
                c.log("sputn(%d)", n);
                int r = (int)b.sputn(s.p, n), want = (int)std::min<size_t>(n, room - text.size());
                CHECK(r == want, "put: %d written of %d with room for %zu", r, n, room - text.size());
                text.append(s.p, want);
                break;
            }
            case 2:
            {
                c.log("sbumpc"); int r = b.sbumpc();
                CHECK(r == (left ? code(text[pos]) : eof), "take: %d at %zu of %s", r, pos, show(text).c_str());
                if(left) ++pos;
                break;
            }
            case 3:
            {
                c.log("snextc"); int r = b.snextc();
                if(left) ++pos;
                CHECK(r == (pos < text.size() ? code(text[pos]) : eof), "next: %d at %zu of %s", r, pos, show(text).c_str());
                break;
            }
            case 4:
            {
                int n = c.pick((int)room + 2); c.log("sgetn(%d)", n);
                Exact<char> s(n); memset(s.p, 0x7e, n);
                int r = (int)b.sgetn(s.p, n), want = (int)std::min<size_t>(n, left);
                CHECK(r == want, "take: %d of %d when %zu are left", r, n, left);
                CHECK(!memcmp(s.p, text.data() + pos, want), "take: wrong characters");
                for(int i = want; i < n; i++) CHECK(s.p[i] == 0x7e, "take: more than it says");
                pos += want;
                break;
            }
            case 5:
            {
                c.log("sungetc"); int r = b.sungetc();
                if(pos) { --pos; CHECK(r == code(text[pos]), "unget: %d at %zu of %s", r, pos, show(text).c_str()); }
                else CHECK(r == eof, "unget: %d at the start", r);
                break;
            }
            case 6:
            {
                size_t to = c.pick((int)text.size() + 1); int way = c.pick(3); c.log("seek to %zu way %d", to, way);
                long r = way == 0 ? (long)b.pubseekoff((long)to, estd::ios_base::beg, estd::ios_base::in)
                       : way == 1 ? (long)b.pubseekoff((long)to - (long)pos, estd::ios_base::cur, estd::ios_base::in)
                                  : (long)b.pubseekoff((long)to - (long)text.size(), estd::ios_base::end, estd::ios_base::in);
                CHECK(r == (long)to, "seek: to %zu gives %ld", to, r);
                pos = to;
                break;
            }
            case 7: c.log("clear"); b.clear(); text.clear(); pos = 0; break;
            case 8: { c.log("pubsync"); int r = b.pubsync(); CHECK(r == 0, "sync: %d", r); break; }
        }
    }
}

template <size_t N, bool NT> static void layer1_string(Ctx& c)
{
    typedef estd::layer1::stringbuf<N, NT> B; typedef Fixed<B, N * 2 + NT> F;
    F::fill(0xA5);
    Own<B> b(F::make());
    size_t room = b->str().max_size();
    CHECK(room == (NT ? N - 1 : N), "room: %zu for %zu", room, N);
    std::vector<char> al = NT ? std::vector<char>{'a', '\xff'} : std::vector<char>{'a', '\xff', '\0'};
    string_history(c, *b, room, al, [] { return F::intact(); }, "");
}
SCENARIO_FN(string_2, (layer1_string<2, true>), 6, 9);
SCENARIO_FN(string_4, (layer1_string<4, true>), 5, 8);
SCENARIO_FN(plain_string_3, (layer1_string<3, false>), 5, 8);
SCENARIO_FN(plain_string_1, (layer1_string<1, false>), 6, 9);

// room and amounts next to and beyond what one byte counts
template <bool NT> static void large_string(Ctx& c)
{
    typedef estd::layer1::stringbuf<600, NT> B; typedef Fixed<B, 10> F; F::fill(0xA5); Own<B> b(F::make());
    const size_t room = b->str().max_size(); std::string src; for(int i = 0; i < 700; i++) src += char('a' + i % 23); static const int many[] = {1, 88, 254, 255, 256, 257, 300, 344, 598, 599, 600, 601, 700};
    std::string text; size_t pos = 0;
    for(int d = 0;; d++)
    {
        string_state(c, *b, text, pos); CHECK(F::intact(), "outside: wrote outside the object");
        if(d == c.bound || c.visited(std::to_string(text.size()) + "@" + std::to_string(pos) + ":" + std::to_string(std::hash<std::string>()(text)), c.bound - d)) return;
        size_t n = c.of(many);
        switch(c.pick(4))
        {
            case 0: { c.log("sputn %zu of %zu free", n, room - text.size()); size_t take = std::min(n, room - text.size()); long r = (long)b->sputn(src.data() + 3, (long)n); CHECK(r == (long)take, "sputn: %zu gives %ld, expected %zu", n, r, take); text.append(src, 3, take); break; }
            case 1: { c.log("sgetn %zu at %zu of %zu", n, pos, text.size()); Exact<char> to(n); size_t take = std::min(n, text.size() - pos); long r = (long)b->sgetn(to.p, (long)n); CHECK(r == (long)take && !memcmp(to.p, text.data() + pos, take), "sgetn: %zu gives %ld, expected %zu", n, r, take); pos += take; break; }
            case 2: { if(n > text.size()) return; c.log("seek %zu", n); long r = (long)b->pubseekoff((long)n, estd::ios_base::beg, estd::ios_base::in); CHECK(r == (long)n, "seek: to %zu gives %ld", n, r); pos = n; break; }
            default: c.log("clear"); b->clear(); text.clear(); pos = 0;
        }
    }
}
SCENARIO_FN(string_600, (large_string<true>), 3, 4);
SCENARIO_FN(plain_string_600, (large_string<false>), 3, 4);

SCENARIO(external_string, 5, 7)
{
    typedef estd::layer3::stringbuf B;
    Exact<char> mem(4);
    int had = c.pick(3); memcpy(mem.p, "xyz", had);
    typedef typename B::impl_type::string_type::size_type Z;
    B b(mem.p, (Z)had, (Z)4);
    CHECK((size_t)b.str().max_size() == 4, "room: %zu", (size_t)b.str().max_size());
    string_history(c, b, 4, {'a', '\xff', '\0'}, [] { return true; }, std::string("xyz", had));
}
// through the traditional interface with virtual functions
SCENARIO(wrapped_string, 5, 7)
{
    typedef estd::layer1::stringbuf<4> B; typedef Fixed<B, 90> F; typedef estd::internal::basic_streambuf_wrapped<B&> W;
    F::fill(0xA5);
    Own<B> b(F::make());
    W wrap(*b); estd::basic_streambuf<char>& w = wrap;
    std::string text; static const char al[] = {'a', '\xff', '*'};
    for(int d = 0;; d++)
    {
        string_state(c, *b, text, 0);
        CHECK(F::intact(), "outside: wrote outside the object");
        if(d == c.bound || c.visited(text, c.bound - d)) return;
        switch(c.pick(4))
        {
            case 0:
            {
                char ch = c.of(al); c.log("sputc(%d)", code(ch));
                int r = w.sputc(ch);
                if(text.size() < 3) { text += ch; CHECK(r == code(ch), "put: gives %d for %d", r, code(ch)); }
                else CHECK(r == eof, "put: gives %d when full", r);
                break;
            }
            case 1:
            {
                int n = c.pick(6); c.log("sputn(%d)", n);
                Exact<char> s(n); memset(s.p, "bcd\xff"[d % 4], n);
                int r = (int)w.sputn(s.p, n), want = (int)std::min<size_t>(n, 3 - text.size());
                CHECK(r == want, "put: %d written of %d with room for %zu", r, n, 3 - text.size());
                text.append(s.p, want);
                break;
            }
            case 2: { c.log("pubsync"); int r = w.pubsync(); CHECK(r == 0, "sync: %d", r); break; }
            case 3: c.log("clear"); b->clear(); text.clear(); break;
        }
    }
}

// ---------------------------------------------------------------------------
// spans
template <class T, size_t N> static void out_span(Ctx& c)
{
    typedef estd::detail::streambuf<estd::internal::impl::out_span_streambuf<T>> B;
    Exact<T> mem(N);
    for(size_t i = 0; i < N; i++) mem.p[i] = (T)(100 + i);
    std::vector<T> m(mem.p, mem.p + N); size_t pos = 0;
    B b(estd::span<T>(mem.p, N));
    for(int d = 0;; d++)
    {
        for(size_t i = 0; i < N; i++) CHECK(mem.p[i] == m[i], "text: %u at %zu, expected %u", (unsigned)mem.p[i], i, (unsigned)m[i]);
        CHECK((size_t)b.pos() == pos, "position: %zu, expected %zu", (size_t)b.pos(), pos);
        CHECK(b.pbase() == mem.p && b.pptr() == mem.p + pos && b.epptr() == mem.p + N, "area: %zu", pos);
        std::string key((char*)m.data(), N * sizeof(T)); key += (char)pos;
        c.observe(key);
        if(d == c.bound || c.visited(key, c.bound - d)) return;
        switch(c.pick(3))
        {
            case 0:
            {
                T ch = (T)(c.flip() ? 1 : ~0); c.log("sputc(%u)", (unsigned)ch);
                auto r = b.sputc(ch);
                if(pos < N) { m[pos++] = ch; CHECK(r == std::char_traits<T>::to_int_type(ch), "put: gives %ld", (long)r); }
                else CHECK(r == std::char_traits<T>::eof(), "put: gives %ld when full", (long)r);
                break;
            }
            case 1:
            {
                int n = c.pick((int)N + 2); Exact<T> s(n); for(int i = 0; i < n; i++) s.p[i] = (T)(2 + i % 2);
                c.log("sputn(%d)", n);
                long r = b.sputn(s.p, n), want = std::min<long>(n, N - pos);
                CHECK(r == want, "put: %ld written of %d with room for %zu", r, n, N - pos);
                for(int i = 0; i < want; i++) m[pos++] = s.p[i];
                break;
            }
            case 2:
            {
                size_t to = c.pick((int)N + 1); int way = c.pick(3); c.log("seek to %zu way %d", to, way);
                long r = way == 0 ? (long)b.pubseekoff((long)to, estd::ios_base::beg, estd::ios_base::out)
                       : way == 1 ? (long)b.pubseekoff((long)to - (long)pos, estd::ios_base::cur, estd::ios_base::out)
                                  : (long)b.pubseekoff((long)to - (long)N, estd::ios_base::end, estd::ios_base::out);
                CHECK(r == (long)to, "seek: to %zu gives %ld", to, r);
                pos = to;
                break;
            }
        }
    }
}
SCENARIO_FN(out_span_3, (out_span<char, 3>), 6, 9);
SCENARIO_FN(out_span_1, (out_span<char, 1>), 8, 12);
#ifndef MC_DEVICE   // its traits are those of char only
SCENARIO_FN(out_span_wide, (out_span<char16_t, 2>), 6, 9);
#endif

template <class T> static void in_span(Ctx& c)
{
    typedef typename std::remove_const<T>::type V;
    typedef estd::detail::streambuf<estd::internal::impl::in_span_streambuf<T>> B;
    size_t N = c.pick(5);
    Exact<V> mem(N);
    for(size_t i = 0; i < N; i++) mem.p[i] = "a\xff\0b"[i];
    std::string text((char*)mem.p, N); size_t pos = 0;
    B b(estd::span<T>(mem.p, N));
    for(int d = 0;; d++)
    {
        size_t left = N - pos;
        CHECK((size_t)(b.gptr() - mem.p) == pos && b.eback() == mem.p && b.egptr() == mem.p + N, "area: at %zu, expected %zu", (size_t)(b.gptr() - mem.p), pos);
        CHECK(b.in_avail() == (left ? (long)left : -1), "available: %ld of %zu", (long)b.in_avail(), left);
        CHECK(b.sgetc() == (left ? code(text[pos]) : eof), "peek: %d at %zu of %s", (int)b.sgetc(), pos, show(text).c_str());
        std::string key = text + '|' + (char)pos;
        c.observe(key);
        if(d == c.bound || c.visited(key, c.bound - d)) return;
        switch(c.pick(5))
        {
            case 0:
            {
                c.log("sbumpc"); int r = b.sbumpc();
                CHECK(r == (left ? code(text[pos]) : eof), "take: %d at %zu of %s", r, pos, show(text).c_str());
                if(left) ++pos;
                break;
            }
            case 1:
            {
                c.log("snextc"); int r = b.snextc();
                if(left) ++pos;
                CHECK(r == (pos < text.size() ? code(text[pos]) : eof), "next: %d at %zu of %s", r, pos, show(text).c_str());
                break;
            }
            case 2:
            {
                int n = c.pick((int)N + 2); c.log("sgetn(%d)", n);
                Exact<V> s(n); for(int i = 0; i < n; i++) s.p[i] = 0x7e;
                int r = (int)b.sgetn(s.p, n), want = (int)std::min<size_t>(n, left);
                CHECK(r == want, "take: %d of %d when %zu are left", r, n, left);
                for(int i = 0; i < n; i++) CHECK(s.p[i] == (i < want ? (V)text[pos + i] : (V)0x7e), "take: wrong character at %d", i);
                pos += want;
                break;
            }
            case 3:
            {
                c.log("sungetc"); int r = b.sungetc();
                if(pos) { --pos; CHECK(r == code(text[pos]), "unget: %d at %zu of %s", r, pos, show(text).c_str()); }
                else CHECK(r == eof, "unget: %d at the start", r);
                break;
            }
            case 4:
            {
                size_t to = c.pick((int)N + 1); int way = c.pick(2); c.log("seek to %zu way %d", to, way);
                long r = way == 0 ? (long)b.pubseekoff((long)to, estd::ios_base::beg, estd::ios_base::in)
                                  : (long)b.pubseekoff((long)to - (long)pos, estd::ios_base::cur, estd::ios_base::in);
                CHECK(r == (long)to, "seek: to %zu gives %ld", to, r);
                pos = to;
                break;
            }
        }
    }
}
SCENARIO_FN(in_span_text, in_span<char>, 6, 10);
SCENARIO_FN(in_span_const, in_span<const char>, 6, 10);

// spans beyond 16 bits: every way of getting across that limit
SCENARIO(long_span, 1, 2)
{
    const size_t N = 66000;
    static std::vector<char> src; if(src.empty()) for(size_t i = 0; i < N; i++) src.push_back((char)(i * 7 + i / 251));
    typedef estd::detail::streambuf<estd::internal::impl::in_span_streambuf<const char>> I;
    typedef estd::detail::streambuf<estd::internal::impl::out_span_streambuf<char>> O;
    static std::vector<char> dst(N), buf(N);
    I in(estd::span<const char>(src.data(), N)); O out(estd::span<char>(dst.data(), N));
    size_t ip = 0, op = 0;
    static const int steps[] = { 1, 2, 255, 465, 32767, 32768, 65535, 65536 };
    for(int d = 0; d < c.bound + 2; d++)
    {
        int n = c.of(steps); bool seek = c.flip();
        c.log("%s %d", seek ? "seek" : "copy", n);
        if(seek)
        {
            size_t ni = std::min(N, ip + n), no = std::min(N, op + n);
            CHECK((size_t)in.pubseekoff((long)(ni - ip), estd::ios_base::cur, estd::ios_base::in) == ni, "seek: in to %zu", ni);
            CHECK((size_t)out.pubseekoff((long)no, estd::ios_base::beg, estd::ios_base::out) == no, "seek: out to %zu", no);
            ip = ni; op = no;
        }
        else
        {
            long want = std::min<long>(n, N - ip), r = in.sgetn(buf.data(), n);
            CHECK(r == want && !memcmp(buf.data(), src.data() + ip, want), "take: %ld of %d at %zu", r, n, ip);
            ip += want;
            r = out.sputn(buf.data(), want);
            long w2 = std::min<long>(want, N - op);
            CHECK(r == w2 && !memcmp(dst.data() + op, buf.data(), w2), "put: %ld of %ld at %zu", r, want, op);
            op += w2;
        }
        CHECK(in.in_avail() == (ip < N ? (long)(N - ip) : -1), "available: %ld at %zu", (long)in.in_avail(), ip);
        CHECK(in.sgetc() == (ip < N ? code(src[ip]) : eof), "peek: at %zu", ip);
    }
    c.observe(ip * 100000 + op);
}

// ---- units wider than a byte
template <class C, class B> static void unit_history(Ctx& c, B& b, size_t room, const std::function<bool()>& intact)
{
    typedef std::basic_string<C> M; M m; size_t pos = 0; static const C w[] = {(C)0x161, (C)0x261, (C)0x1ff};
    auto spell = [](const M& a) { std::string r = "["; for(C u : a) { char b[16]; snprintf(b, 16, "%lx ", (unsigned long)u); r += b; } return r + "]"; };
    for(int d = 0;; d++)
    {
        M got; for(size_t i = 0; i < (size_t)b.str_.size() && i < 8; i++) got += (C)b.str_[i];
        CHECK(got == m, "units: %s, expected %s", spell(got).c_str(), spell(m).c_str()); CHECK(intact(), "units: wrote outside");
        typedef typename B::traits_type TR; auto p = b.sgetc(); CHECK(pos < m.size() ? p == TR::to_int_type(m[pos]) : p == TR::eof(), "units: peek %lx at %zu of %s", (unsigned long)p, pos, spell(m).c_str());
        c.observe(spell(m)); if(d == c.bound || c.visited(spell(m) + std::to_string(pos), c.bound - d)) return;
        switch(c.pick(4))
        {
            case 0: { C u = w[c.pick(3)]; c.log("sputc(%lx)", (unsigned long)u); auto r = b.sputc(u); if(m.size() < room) { m += u; CHECK(r == TR::to_int_type(u), "units: put gives %lx", (unsigned long)r); } else CHECK(r == TR::eof(), "units: put when full gives %lx", (unsigned long)r); break; }
            case 1: { int n = c.pick(4); Exact<C> s(n); for(int i = 0; i < n; i++) s.p[i] = w[i]; c.log("sputn(%d)", n); int want = (int)std::min<size_t>(n, room - m.size()), r = (int)b.sputn(s.p, n); CHECK(r == want, "units: %d written of %d with room for %zu", r, n, room - m.size()); m.append(s.p, want); break; }
            case 2: { int n = c.pick(4); Exact<C> s(n); c.log("sgetn(%d)", n); int want = (int)std::min<size_t>(n, m.size() - pos), r = (int)b.sgetn(s.p, n); CHECK(r == want && std::equal(s.p, s.p + want, m.data() + pos), "units: %d read of %d at %zu of %s", r, n, pos, spell(m).c_str()); pos += want; break; }
            case 3: { c.log("sbumpc"); auto r = b.sbumpc(); if(pos < m.size()) { CHECK(r == TR::to_int_type(m[pos]), "units: took %lx at %zu of %s", (unsigned long)r, pos, spell(m).c_str()); pos++; } else CHECK(r == TR::eof(), "units: took %lx at the end", (unsigned long)r); break; }
        }
    }
}
template <class C> static void units(Ctx& c) { typedef estd::layer1::basic_stringbuf<C, 3, false> B; typedef Fixed<B, 6> F; F::fill(0xA5); Own<B> b(F::make()); unit_history<C>(c, *b, 3, [] { return F::intact(); }); }
SCENARIO_FN(units_wchar, units<wchar_t>, 6, 8);
SCENARIO_FN(units_char16, units<char16_t>, 6, 8);

// ---- moving about in an output stream: the stream comes back, writes where it was sent to, and says where it is
SCENARIO(stream_seek_put, 5, 7)
{
    enum { N = 4 }; Exact<char> mem(N); memset(mem.p, '.', N); std::string m(N, '.'); size_t pos = 0; char next = 'a';
    typedef estd::detail::ospanstream S; S s((estd::span<char>(mem.p, N)));
    for(int d = 0;; d++)
    {
        CHECK(std::string(mem.p, N) == m, "seekp: buffer %s, expected %s", std::string(mem.p, N).c_str(), m.c_str()); CHECK(s.good(), "seekp: state %d", (int)s.rdstate());
        CHECK((size_t)s.tellp() == pos, "seekp: at %ld, expected %zu", (long)s.tellp(), pos); c.observe(m + std::to_string(pos));
        if(d == c.bound || c.visited(m + std::to_string(pos), c.bound - d)) return;
        switch(c.pick(3))
        {
            case 0: { if(pos == N) return; char ch = next++; c.log("put %c", ch); S& r = s.put(ch); CHECK(&r == &s, "put: another stream"); m[pos++] = ch; break; }
            case 1: { if(pos + 2 > N) return; char two[2] = {next++, '\0'}; c.log("write 2"); S& r = s.write(two, 2); CHECK(&r == &s, "write: another stream"); m[pos++] = two[0]; m[pos++] = two[1]; break; }
            default:
            {
                size_t to = c.pick(N + 1); int way = c.pick(3); c.log("seekp %zu way %d", to, way);
                S& r = way == 0 ? s.seekp((long)to, estd::ios_base::beg) : way == 1 ? s.seekp((long)to - (long)pos, estd::ios_base::cur) : s.seekp((long)to - N, estd::ios_base::end);
                CHECK(&r == &s, "seekp: another stream"); pos = to; s.put('!'); if(to < N) { m[pos++] = '!'; } else s.clear();
            }
        }
    }
}
