// Property C23: a byte ring hands out what was put in, in order, in one piece at a time.
// ALSO: -std=gnu++20
// SOURCES: $SRC/estd/ext/willemt/bipbuffer/bipbuffer.c
#include <estd/internal/bip/buffer.h>
#include "mc.h"
#include <memory>
using namespace mc;

// Every way of addressing one ring of N bytes
template <unsigned N> struct Layer1
{
    typedef estd::layer1::bipbuf<N> R;
    R r;
    R& get() { return r; }
};
template <unsigned N> struct Layer3
{
    typedef estd::layer3::bipbuf R;
    alignas(bipbuf_t) unsigned char mem[sizeof(bipbuf_t) + N];
    R r{(bipbuf_t*)mem, (int)N};
    R& get() { return r; }
};

// what the ring holds, taken from a copy so that the ring itself is left alone
template <unsigned N> static std::string drain(Ctx& c, const bipbuf_t* b)
{
    std::unique_ptr<unsigned long[]> m(new unsigned long[(sizeof(bipbuf_t) + N + 7) / 8]);
    bipbuf_t* k = (bipbuf_t*)m.get(); memcpy((void*)k, (const void*)b, sizeof(bipbuf_t) + N);
    estd::layer3::bipbuf x(k);
    std::string all;
    for(unsigned round = 0; x.used(); round++)
    {
        CHECK(round <= 2 * N, "drain: a ring said to hold %u bytes cannot be emptied", x.used());
        const unsigned char* p = x.poll(1);
        CHECK(p, "drain: a ring holding %u bytes gives none", x.used());
        all += (char)*p;
    }
    CHECK(x.unused() == N, "room: an emptied ring of %u has room for %u", N, x.unused());
    return all;
}

// where the two regions lie by the scheme of a bip buffer: a first region that is read, and a second one at the start of the storage
// once there is more room before the first than behind it
struct Regions
{
    unsigned n, first = 0, last = 0, second = 0; bool split = false;
    explicit Regions(unsigned n) : n(n) {}
    unsigned room() const { return split ? first - second : n - last; }
    void settle() { if(n - last < first - second) split = true; }
    void put(unsigned k) { (split ? second : last) += k; settle(); }
    void take(unsigned k) { first += k; if(first == last) { first = 0; last = split ? second : 0; second = 0; split = false; } settle(); }
};

template <template <unsigned> class K, unsigned N> static void ring(Ctx& c)
{
    Regions lies(N);
    typedef Fixed<K<N>, 0> F;
    F::fill(0xA5);
    Own<K<N>> own(F::make());
    auto& r = own->get();
    std::string m; int next = 0;
    auto fresh = [&](unsigned n) { std::string s; while(n--) s += (char)('a' + next++ % 5); return s; };
    for(int d = 0;; d++)
    {
        bipbuf_t* nat = r.native();
        CHECK(F::intact(), "outside: wrote outside the ring");
        CHECK(r.used() == m.size(), "used: says %u, holds %zu", r.used(), m.size());
        CHECK(r.unused() == lies.room(), "room: says %u, the larger piece free is %u", r.unused(), lies.room());
        CHECK(r.peekable() == lies.last - lies.first, "piece: says %u can be seen, it is %u", r.peekable(), lies.last - lies.first);
        CHECK(r.unused() <= N - m.size(), "room: says %u with %zu of %u used", r.unused(), m.size(), N);
        if(m.empty()) CHECK(r.unused() == N, "room: an empty ring of %u has room for %u", N, r.unused());
        CHECK(bipbuf_size(nat) == (int)N && bipbuf_is_empty(nat) == (int)m.empty(), "state: size %d empty %d", bipbuf_size(nat), bipbuf_is_empty(nat));
        // reachable in one piece
        unsigned piece = 0;
        for(unsigned n = 0; n <= N + 2; n++)
        {
            auto p = r.peek((int)n);
            if(m.empty()) { CHECK(!p, "peek: an empty ring shows %u bytes", n); continue; }
            if(p)
            {
                CHECK(n == 0 || piece == n - 1, "peek: %u bytes are shown but not %u", n, n - 1);
                CHECK(n <= m.size(), "peek: %u bytes are shown, %zu are there", n, m.size());
                CHECK(!memcmp(p, m.data(), n), "peek: %u bytes are %s, expected %s", n, show(std::string((const char*)p, n)).c_str(), show(m.substr(0, n)).c_str());
                if(n) piece = n;
            }
        }
        CHECK(piece == lies.last - lies.first, "peek: %u bytes can be seen, the first piece has %u", piece, lies.last - lies.first);
        if(!m.empty()) CHECK(piece >= 1, "peek: nothing to be seen of %zu bytes", m.size());
        std::string all = drain<N>(c, nat);
        CHECK(all == m, "order: holds %s, expected %s", show(all).c_str(), show(m).c_str());
        std::string key((const char*)nat, sizeof(bipbuf_t)); key += m;
        c.observe(m);
        if(d == c.bound || c.visited(key, c.bound - d)) return;
        switch(c.pick(3))
        {
            case 0:
            {
                unsigned n = c.pick(N + 3), room = r.unused(); std::string s = fresh(n);
                c.log("offer(%s)", show(s).c_str());
                int got = r.offer((const unsigned char*)s.data(), (int)n);
                if(n <= room) { CHECK(got == (int)n, "offer: %u bytes into room for %u gives %d", n, room, got); m += s; lies.put(n); }
                else { CHECK(got == 0, "offer: %u bytes into room for %u gives %d", n, room, got); next -= n; }
                break;
            }
            case 1:
            {
                unsigned room = r.unused(), n = c.pick(room + 1); std::string s = fresh(n);
                c.log("fill in place(%s)", show(s).c_str());
                unsigned char* p = r.offer_begin();
                CHECK(p >= nat->data && p + room <= nat->data + N, "place: room for %u at %d", room, (int)(p - nat->data));
                memcpy(p, s.data(), n);
                r.offer_end(n); m += s; lies.put(n);
                break;
            }
            case 2:
            {
                unsigned n = c.pick(N + 3);
                c.log("poll(%u)", n);
                auto want = r.peek((int)n);
                auto p = r.poll((int)n);
                CHECK(p == want, "poll: %u bytes differ from what was shown", n);
                if(p) { CHECK(!memcmp(p, m.data(), n), "poll: %u bytes are %s, expected %s", n, show(std::string((const char*)p, n)).c_str(), show(m.substr(0, n)).c_str()); m.erase(0, n); lies.take(n); }
                break;
            }
        }
    }
}
static void r1(Ctx& c) { ring<Layer1, 1>(c); }
static void r2(Ctx& c) { ring<Layer1, 2>(c); }
static void r3(Ctx& c) { ring<Layer1, 3>(c); }
static void r4(Ctx& c) { ring<Layer1, 4>(c); }
static void r5(Ctx& c) { ring<Layer1, 5>(c); }
static void r8(Ctx& c) { ring<Layer1, 8>(c); }
static void e3(Ctx& c) { ring<Layer3, 3>(c); }
static void e5(Ctx& c) { ring<Layer3, 5>(c); }
SCENARIO_FN(one, r1, 20, 30);
SCENARIO_FN(two, r2, 16, 30);
SCENARIO_FN(three, r3, 14, 24);
SCENARIO_FN(four, r4, 24, 40);
SCENARIO_FN(five, r5, 24, 40);
SCENARIO_FN(eight, r8, 10, 30);
SCENARIO_FN(external_three, e3, 14, 24);
SCENARIO_FN(external_five, e5, 24, 40);
