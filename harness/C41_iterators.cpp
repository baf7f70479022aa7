// Property C41: stream iterators walk exactly the stream's characters, and know its end.
// ALSO: -std=gnu++20
// ALSO: DEVICE
#include <estd/string.h>
#include <estd/iostream.h>
#include <estd/sstream.h>
#include <estd/span.h>
#include <estd/iterator.h>
#include "mc.h"
using namespace mc;
static const std::vector<char> alphabet = {'a', '\xff', '\0', ' '};
static std::string any_text(Ctx& c, int longest) { int n = c.pick(longest + 1); std::string s; while(n--) s += c.of(alphabet); c.log("text %s", show(s).c_str()); return s; }

// ---- reading: two iterators and the buffer itself share one position
template <class B> static void reading(Ctx& c, B& b, const std::string& text)
{
    typedef estd::istreambuf_iterator<B> It; const It end; const size_t N = text.size();
    size_t pos = 0; It it[2] = { It(b), It() }; bool over[2] = { false, true };
    auto code = [&](size_t i) { return i < N ? (int)(unsigned char)text[i] : -1; };
    for(int d = 0;; d++)
    {
        for(int i = 0; i < 2; i++)
        {
            bool e = over[i] || pos == N; const It& k = it[i];
            CHECK((k == end) == e && (end == k) == e && (k != end) == !e && k.equal(end) == e, "end: %d at %zu of %s, expected %d", (int)(k == end), pos, show(text).c_str(), e);
            if(!over[i]) CHECK((int)*k == code(pos), "value: %d at %zu of %s", (int)*k, pos, show(text).c_str());
        }
        { bool e = (over[0] || pos == N) == (over[1] || pos == N); CHECK((it[0] == it[1]) == e && (it[0] != it[1]) == !e, "equal: expected %d", e); }
        CHECK((int)b.sgetc() == code(pos), "moved: by looking");
        c.observe(std::to_string(pos) + "," + std::to_string(over[0]) + std::to_string(over[1]));
        if(d == c.bound || c.visited(text + "|" + std::to_string(pos) + std::to_string(over[0]) + std::to_string(over[1]), c.bound - d)) return;
        int i = c.flip(); auto step = [&] { if(!over[i] && pos < N) { ++pos; if(pos == N) over[i] = true; } else if(!over[i]) over[i] = true; };
        switch(c.pick(6))
        {
            case 0: { c.log("++it%d", i); It& r = ++it[i]; CHECK(&r == &it[i], "returns: another"); step(); break; }
            case 1: { c.log("*it%d++", i); bool was = over[i]; int want = code(pos); auto p = it[i]++; if(!was && want >= 0) CHECK((int)(unsigned char)*p == want, "postfix: %d, expected %d", (int)(unsigned char)*p, want); CHECK(p.equal(end) == (was || want < 0), "postfix: end is %d", (int)p.equal(end)); step(); break; }
            case 2: { c.log("it%d made anew", i); it[i] = c.flip() ? It(b) : It(&b); over[i] = false; break; }
            case 3: { c.log("it%d = the other", i); it[i] = it[!i]; over[i] = over[!i]; break; }
            case 4: { c.log("it%d = end", i); it[i] = end; over[i] = true; break; }
            case 5: { c.log("sbumpc"); int r = b.sbumpc(); CHECK(r == code(pos), "character: %d", r); if(pos < N) ++pos; break; }
        }
    }
}
SCENARIO(read_string, 5, 8) { std::string t = any_text(c, 3 + c.thorough); typedef estd::layer1::stringbuf<6, false> B; typedef Fixed<B, 0> F; F::fill(0xA5); Own<B> b(F::make()); b->sputn(t.data(), t.size()); reading(c, *b, t); CHECK(F::intact(), "outside: wrote outside the buffer"); }
SCENARIO(read_span, 5, 8) { std::string t = any_text(c, 3 + c.thorough); char* m = (char*)malloc(t.size()); memcpy(m, t.data(), t.size()); { estd::detail::basic_ispanbuf<char> b(estd::span<char>(m, t.size())); reading(c, b, t); } CHECK(!memcmp(m, t.data(), t.size()), "text: changed"); free(m); }

// walking from wherever the buffer stands to the end gives the rest of the text, each character once
template <class B> static void walk(Ctx& c, B& b, const std::string& t)
{
    int skip = c.pick((int)t.size() + 1), way = c.pick(4); for(int i = 0; i < skip; i++) b.sbumpc(); c.log("from %d way %d", skip, way);
    estd::istreambuf_iterator<B> it(b), end; std::string got; int guard = 0;
    switch(way)
    {
        case 0: for(; it != end && guard++ < 20; ++it) got += (char)*it; break;
        case 1: for(; !(it == end) && guard++ < 20; ) got += *it++; break;
        case 2: while(it != end && guard++ < 20) { got += (char)*it; it++; } break;
        case 3: guard = estd::distance(it, end); got = t.substr(skip); CHECK(guard == (int)t.size() - skip, "distance: %d, expected %d", guard, (int)t.size() - skip); break;
    }
    CHECK(got == t.substr(skip), "walk: %s, expected %s", show(got).c_str(), show(t.substr(skip)).c_str()); CHECK(b.sgetc() == -1, "left: something"); c.observe(got);
}
SCENARIO(walk_string, 1, 1) { std::string t = any_text(c, 5 + c.thorough); estd::layer1::stringbuf<8, false> b; b.sputn(t.data(), t.size()); walk(c, b, t); }
SCENARIO(walk_span, 1, 1) { std::string t = any_text(c, 5 + c.thorough); estd::detail::basic_ispanbuf<char> b(estd::span<char>((char*)t.data(), t.size())); walk(c, b, t); }
SCENARIO(walk_stream, 1, 1) { std::string t = any_text(c, 5); estd::layer1::istringstream<8, false> s; s.rdbuf()->sputn(t.data(), t.size()); typedef estd::remove_reference<decltype(*s.rdbuf())>::type B; estd::istreambuf_iterator<B> it(s), end; std::string got; int guard = 0; for(; it != end && guard++ < 20; ++it) got += (char)*it; CHECK(got == t, "walk: %s, expected %s", show(got).c_str(), show(t).c_str()); CHECK(s.good(), "state"); c.observe(t); }

// ---- text that arrives in pieces: between them nothing is there yet, but the end has not come
struct PiecesImpl : estd::internal::impl::streambuf_base<estd::char_traits<char>>
{
    std::string text; std::vector<size_t> stops; size_t pos = 0, piece = 0;
    size_t end() const { return stops[piece]; } bool last() const { return piece + 1 == stops.size(); }
    estd::streamsize xin_avail() const { return end() - pos; }
    estd::streamsize showmanyc() const { return pos < end() ? (estd::streamsize)(end() - pos) : last() ? -1 : 0; }
    char xsgetc() const { return text[pos]; }
    void gbump(int n) { pos += n; }
};
SCENARIO(read_pieces, 1, 1)
{
    typedef estd::internal::streambuf<PiecesImpl> B; typedef estd::istreambuf_iterator<B> It; B b; std::string t = any_text(c, 3 + c.thorough); b.text = t; const size_t n = t.size(); std::string got;
    for(size_t i = 0; i <= n; i++) if(i == n || c.flip()) { b.stops.push_back(i); c.log("piece to %zu", i); }
    if(c.flip()) { b.stops.push_back(n); c.log("the end comes late"); }
    It it(b); const It end; bool over = false; int way = c.pick(3);
    for(int guard = 0; guard < 20; guard++)
    {
        bool none = b.pos == n && b.last(), here = b.pos < b.end(), fin = over || none;
        CHECK((it == end) == fin && (It(b) == end) == none && (it != end) == !fin, "end: %d at %zu of %zu, expected %d", (int)(it == end), b.pos, n, (int)fin);
        if(!over) CHECK((int)*it == (here ? (int)(unsigned char)t[b.pos] : -1), "value: %d at %zu", (int)*it, b.pos);
        c.observe(std::to_string(b.pos) + "," + std::to_string(b.piece));
        if(fin) break;
        if(!here) { ++b.piece; continue; }                                   // the next piece arrives
        switch(way) { case 0: got += (char)*it; ++it; break; case 1: got += *it++; break; default: { got += (char)*it; auto p = it++; CHECK(*p == got.back() && !p.equal(end), "postfix: %d", *p); break; } }
        over = b.pos == n && b.last();
    }
    CHECK(got == t, "walk: %s, expected %s", show(got).c_str(), show(t).c_str());
}

// ---- writing: into a buffer with little room, by two iterators
template <class B> static void writing(Ctx& c, B& b, size_t room, const std::function<std::string()>& text, const std::function<void()>& drain = {})
{
    typedef estd::experimental::ostreambuf_iterator<B> Out; Out it[2] = { Out(&b), Out(&b) }; Out none; bool failed[2] = {}; std::string m;
    for(int d = 0;; d++)
    {
        CHECK(text() == m, "text: %s, expected %s", show(text()).c_str(), show(m).c_str());
        for(int i = 0; i < 2; i++) CHECK(it[i].failed() == failed[i], "failed: %d, expected %d with %zu of %zu", (int)it[i].failed(), failed[i], m.size(), room);
        c.observe(m + std::to_string(failed[0]) + std::to_string(failed[1]));
        if(d == c.bound || c.visited(m + "|" + std::to_string(failed[0]) + std::to_string(failed[1]), c.bound - d)) return;
        int i = c.flip(); char ch = alphabet[m.size() % 4]; auto put = [&] { if(failed[i]) return; if(m.size() < room) m += ch; else failed[i] = true; };
        switch(c.pick(drain ? 8 : 7))
        {
            case 7: c.log("text taken away"); drain(); m.clear(); break;
            case 0: c.log("it%d = %d", i, ch); it[i] = ch; put(); break;
            case 1: c.log("it%d++ = %d", i, ch); { auto k = it[i]++; k = ch; bool f = failed[i]; put(); CHECK(k.failed() == failed[i], "failed: %d after postfix", (int)k.failed()); if(!f && failed[i]) { failed[i] = false; } } break;
            case 2: c.log("++it%d = %d", i, ch); ++it[i] = ch; put(); break;
            case 3: c.log("++it%d", i); ++it[i]; break;
            case 4: c.log("it%d = the other", i); it[i] = it[!i]; failed[i] = failed[!i]; break;
            case 5: c.log("it%d made anew", i); it[i] = Out(&b); failed[i] = false; break;
            case 6: c.log("to nowhere"); none = ch; break;
        }
    }
}
SCENARIO(write_string, 6, 8) { size_t n = 3; typedef estd::layer1::stringbuf<3, false> B; typedef Fixed<B, 0> F; F::fill(0xA5); Own<B> b(F::make()); writing(c, *b, n, [&] { std::string s; for(size_t i = 0; i < (size_t)b->str().size(); i++) s += (char)b->str()[i]; return s; }, [&] { const_cast<estd::layer1::basic_string<char, 3, false>&>(b->str()).clear(); }); CHECK(F::intact(), "outside: wrote outside the buffer"); }
SCENARIO(write_span, 6, 8) { size_t n = c.pick(4); char* m = (char*)malloc(n); memset(m, 0x7e, n); { estd::detail::basic_ospanbuf<char> b(estd::span<char>(m, n)); writing(c, b, n, [&] { return std::string(m, (size_t)b.pos()); }); } free(m); }

// values through a stream
SCENARIO(write_values, 4, 6)
{
    estd::layer1::ostringstream<40> o; typedef decltype(o) O; estd::experimental::ostream_iterator<int, O> n(o); estd::experimental::ostream_iterator<char, O> ch(o); std::string m; static const int v[] = {0, -7, 1234567};
    for(int d = 0; d < c.bound; d++) switch(c.pick(4)) { case 0: { int x = c.of(v); n = x; m += std::to_string(x); break; } case 1: { int x = c.of(v); *n++ = x; m += std::to_string(x); break; } case 2: ch = 'x'; m += 'x'; break; case 3: *ch++ = '\xff'; m += '\xff'; break; }
    std::string got; for(size_t i = 0; i < (size_t)o.rdbuf()->str().size(); i++) got += (char)o.rdbuf()->str()[i]; CHECK(got == m, "text: %s, expected %s", show(got).c_str(), show(m).c_str()); c.observe(m);
}

// ---- a view of another iterator through a function
SCENARIO(filtered, 6, 9)
{
    static const char t[] = "abc\xff/defghij"; auto f = [](char x) -> char { return x == '/' ? '\0' : (char)(x + 1); }; auto it = estd::experimental::make_filter_iterator(f, (const char*)t); size_t p = 0;
    for(int d = 0; d < c.bound; d++) { char got; size_t at = p; switch(c.pick(4)) { case 0: got = *it; break; case 1: got = *it++; p++; break; case 2: got = *++it; at = ++p; break; default: { auto k = it; ++k; got = *it; break; } } CHECK(got == f(t[at]), "value: %d at %zu", got, at); }
    c.observe((int)p);
}

// ---- distances and what an iterator says of itself
SCENARIO(distances, 1, 1)
{
    int a[6]; int i = c.pick(7), j = i + c.pick(7 - i); CHECK(estd::distance(a + i, a + j) == j - i, "distance: %d, expected %d", estd::distance(a + i, a + j), j - i); std::vector<int> v(6); CHECK(estd::distance(v.begin() + i, v.begin() + j) == j - i, "distance: of vector"); c.observe(i * 10 + j);
}
template <class A, class B> constexpr bool same = std::is_same<A, B>::value;
SCENARIO(traits, 1, 1)
{
    typedef estd::iterator_traits<int*> P; typedef estd::iterator_traits<const int*> Q; typedef std::vector<int>::const_iterator V; typedef estd::iterator_traits<V> R;
    CHECK((same<P::value_type, int> && same<P::reference, int&> && same<P::pointer, int*> && same<P::difference_type, ptrdiff_t> && same<P::iterator_category, std::random_access_iterator_tag>), "traits: of a pointer");
    CHECK((same<Q::value_type, int> && same<Q::reference, const int&> && same<Q::pointer, const int*>), "traits: of a pointer to const");
    CHECK((same<R::value_type, V::value_type> && same<R::reference, V::reference> && same<R::pointer, V::pointer> && same<R::difference_type, V::difference_type> && same<R::iterator_category, V::iterator_category>), "traits: of an iterator");
}
