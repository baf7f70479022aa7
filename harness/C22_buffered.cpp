// Property C22 (buffers in front of another stream buffer): nothing is lost, repeated or reordered
// ALSO: -std=gnu++20
// whatever amount the other side takes or gives at a time.
// SOURCES: $SRC/estd/ext/willemt/bipbuffer/bipbuffer.c
// ALSO: DEVICE
#include <estd/istream.h>
#include <estd/ostream.h>
#include <estd/string.h>
#include <estd/sstream.h>
#include <estd/streambuf.h>
#include <estd/internal/streambuf.h>
#include "mc.h"
using namespace mc;
static const int eof = -1;
static int code(char ch) { return (unsigned char)ch; }

// The other side: takes as much as the explorer decides
static std::string pending;   // accepted by the buffer, not yet delivered
static bool refused, generous;
struct SinkImpl : estd::internal::impl::streambuf_base<estd::char_traits<char>>
{
    estd::streamsize xsputn(const char* s, estd::streamsize n)
    {
        Ctx& c = *current;
        CHECK(n >= 0, "flush: %d characters", (int)n);
        CHECK((size_t)n <= pending.size() && !memcmp(s, pending.data(), n), "order: %s is delivered, %s is due", show(std::string(s, n)).c_str(), show(pending).c_str());
        int k = generous ? n : c.pick((int)n + 1);
        if(k < n) refused = true;
        pending.erase(0, k);
        c.log("  (takes %d of %d)", k, (int)n);
        return k;
    }
    int_type sputc(char_type ch) { return xsputn(&ch, 1) ? traits_type::to_int_type(ch) : traits_type::eof(); }
};
typedef estd::internal::streambuf<SinkImpl> Sink;

template <class B, int Slot, unsigned N, bool exact> static void out_buffered(Ctx& c)
{
    typedef Fixed<B, Slot> F;
    F::fill(0xA5);
    pending.clear(); generous = false;
    static Sink sink;
    Own<B> b(F::make(sink));
    int next = 0; static const char letters[] = { 'a', '\xff', 'b', '*', '\0', 'c', 'd' };
    for(int d = 0;; d++)
    {
        CHECK(F::intact(), "outside: wrote outside the object");
        CHECK(pending.size() <= N, "held: %zu in %u", pending.size(), N);
        if(d == c.bound || c.visited(F::bytes() + pending + (char)next, c.bound - d)) break;
        refused = false;
        switch(c.pick(3))
        {
            case 0:
            {
                char ch = letters[next]; c.log("sputc(%d)", code(ch));
                pending += ch; size_t before = pending.size();
                int r = b->sputc(ch);
                if(r == eof)
                {
                    CHECK(refused, "put: refused although nothing was refused by the other side, %zu held", before - 1);
                    CHECK(!pending.empty(), "put: a refused character was delivered");
                    pending.pop_back();
                    if(exact) CHECK(pending.size() == N, "put: refused holding %zu, there is room for %u", pending.size(), N);
                }
                else next = (next + 1) % 7;
                break;
            }
            case 1:
            {
                int n = c.pick((int)N + 3); std::string s; for(int i = 0; i < n; i++) s += letters[(next + i) % 7];
                c.log("sputn(%s)", show(s).c_str());
                pending += s;
                int r = (int)b->sputn(s.data(), n);
                CHECK(r >= 0 && r <= n, "put: %d of %d", r, n);
                if(r < n) CHECK(refused, "put: %d of %d although the other side took all", r, n);
                CHECK(pending.size() >= (size_t)(n - r), "put: more delivered than the %d of %d said to be taken", r, n);
                pending.resize(pending.size() - (n - r));
                if(exact && r < n) CHECK(pending.size() == N, "put: %d of %d, holding %zu, there is room for %u", r, n, pending.size(), N);
                next = (next + r) % 7;
                break;
            }
            case 2:
            {
                c.log("pubsync");
                int r = b->pubsync();
                CHECK((r == 0) == pending.empty(), "sync: %d with %zu left", r, pending.size());
                if(r) CHECK(refused, "sync: %d although the other side took all", r);
                break;
            }
        }
        c.observe(pending);
    }
    generous = true;
    c.log("final pubsync");
    int r = b->pubsync();
    CHECK(r == 0 && pending.empty(), "lost: sync gives %d, %s never delivered", r, show(pending).c_str());
}
template <unsigned N> static void os(Ctx& c) { out_buffered<estd::internal::out_buffered_stringbuf<Sink&, N>, N, N, true>(c); }
template <unsigned N> static void ob(Ctx& c) { out_buffered<estd::internal::out_bipbuf_streambuf<Sink&, N>, 100 + N, N, false>(c); }
SCENARIO_FN(out_string_1, os<1>, 6, 9);
SCENARIO_FN(out_string_2, os<2>, 5, 8);
SCENARIO_FN(out_string_4, os<4>, 4, 6);
SCENARIO_FN(out_ring_1, ob<1>, 6, 9);
SCENARIO_FN(out_ring_2, ob<2>, 5, 8);
SCENARIO_FN(out_ring_3, ob<3>, 4, 7);
SCENARIO_FN(out_ring_4, ob<4>, 4, 6);

// The other side: gives as much as the explorer decides
static const char source_text[] = { 'a', '\xff', 'b', '\0', 'c', 'd', 'e' };
static char letter(int i) { return source_text[i % 7]; }
static int given; static bool dry;
struct SourceImpl : estd::internal::impl::streambuf_base<estd::char_traits<char>>
{
    estd::streamsize xsgetn(char* s, estd::streamsize n)
    {
        Ctx& c = *current;
        CHECK(n >= 0, "fill: %d characters", (int)n);
        int k = c.pick((int)n + 1);
        if(k == 0) dry = true;
        for(int i = 0; i < k; i++) s[i] = letter(given++);
        c.log("  (gives %d of %d)", k, (int)n);
        return k;
    }
    int_type xsgetc() const { return traits_type::eof(); }
    void gbump(int) {}
    int_type sungetc() { return traits_type::eof(); }
};
typedef estd::internal::streambuf<SourceImpl> Source;

template <class B, int Slot, unsigned N> static void in_buffered(Ctx& c)
{
    typedef Fixed<B, Slot> F;
    F::fill(0xA5);
    given = 0;
    static Source source;
    Own<B> b(F::make(source));
    int taken = 0;
    for(int d = 0;; d++)
    {
        CHECK(F::intact(), "outside: wrote outside the object");
        int held = given - taken;
        CHECK(held >= 0 && held <= (int)N, "held: %d in %u", held, N);
        CHECK(b->in_avail() == held, "available: %d of %d", (int)b->in_avail(), held);
        c.observe(held * 7 + taken % 7);
        std::string key = F::bytes(); key += (char)(given % 7); key += (char)(taken % 7); key += (char)held;
        if(d == c.bound || c.visited(key, c.bound - d)) return;
        dry = false;
        switch(c.pick(5))
        {
            case 0:
            {
                c.log("sgetc"); int r = b->sgetc();
                if(given > taken) CHECK(r == code(letter(taken)), "peek: %d, expected %d", r, code(letter(taken)));
                else CHECK(r == eof && dry, "peek: %d", r);
                break;
            }
            case 1:
            {
                c.log("sbumpc"); int r = b->sbumpc();
                if(r == eof) CHECK(dry && given == taken, "take: nothing of %d", given - taken);
                else { CHECK(r == code(letter(taken)), "take: %d, expected %d", r, code(letter(taken))); ++taken; }
                break;
            }
            case 2:
            {
                int n = c.pick((int)N + 3); c.log("sgetn(%d)", n);
                char* s = (char*)malloc(n);
                int r = (int)b->sgetn(s, n);
                CHECK(r >= 0 && r <= n, "take: %d of %d", r, n);
                for(int i = 0; i < r; i++) CHECK(s[i] == letter(taken + i), "take: wrong character at %d of %d", i, r);
                free(s);
                taken += r;
                if(r < n) CHECK(dry && given == taken, "take: %d of %d although more was given", r, n);
                break;
            }
            case 3:
            {
                c.log("snextc"); int was = given - taken; int r = b->snextc();
                // one is consumed unless there was none to be had
                int now = b->in_avail();
                int consumed = given - taken - now;
                CHECK(consumed == 0 || consumed == 1, "next: consumed %d", consumed);
                if(was) CHECK(consumed == 1, "next: consumed none of %d", was);
                taken += consumed;
                if(r == eof) CHECK(dry, "next: nothing although the other side never ran dry");
                else CHECK(consumed == 1 && r == code(letter(taken)), "next: %d, expected %d", r, code(letter(taken)));
                break;
            }
            case 4:
            {
                c.log("pubsync"); int was = given;
                b->pubsync();
                CHECK(given - was <= (int)N - held, "fill: %d into room for %d", given - was, (int)N - held);
                break;
            }
        }
    }
}
template <unsigned N> static void ib(Ctx& c) { in_buffered<estd::internal::in_bipbuf_streambuf<Source&, N>, 200 + N, N>(c); }
SCENARIO_FN(in_ring_1, ib<1>, 6, 9);
SCENARIO_FN(in_ring_2, ib<2>, 5, 8);
SCENARIO_FN(in_ring_3, ib<3>, 4, 7);
SCENARIO_FN(in_ring_4, ib<4>, 4, 6);
