// Property C01: string editing operations agree with a plain character sequence.
// ALSO: DEVICE
#include <estd/string.h>
#include <estd/string_view.h>
#include <string_view>
#include <string>
#include "mc.h"
using namespace mc;

template <class S> static void agree(Ctx& c, S& s, const std::string& m, bool nullterm)
{
    CHECK(s.size() == m.size(), "size() is %zu, expected %zu (%s)", (size_t)s.size(), m.size(), show(m).c_str());
    CHECK(s.length() == m.size(), "length()");
    CHECK(s.empty() == m.empty(), "empty() is %d for %s", (int)s.empty(), show(m).c_str());
    const S& cs = s;
    CHECK(m.size() == 0 || memcmp(cs.clock(), m.data(), m.size()) == 0, "data() is %s, expected %s", show(std::string(cs.clock(), m.size())).c_str(), show(m).c_str());
    if(nullterm) CHECK(cs.clock()[m.size()] == 0, "terminator missing after %s", show(m).c_str());
    std::string it;
    for(char ch : s) { it += ch; if(it.size() > 2000) break; }
    CHECK(it == m, "iteration yields %s, expected %s", show(it).c_str(), show(m).c_str());
    for(size_t i = 0; i < m.size(); i++) CHECK((char)s[i] == m[i], "operator[](%zu)", i);
    if(!m.empty())
    {
        CHECK((char)s.front() == m.front(), "front()");
        CHECK((char)s.back() == m.back(), "back()");
        const S& k = s; CHECK((char)k.front() == m.front() && (char)k.back() == m.back(), "front() or back() of a const string");
        CHECK((char)k[m.size() - 1] == m.back() && (char)k.at(0) == m[0] && (char)s.at(m.size() - 1) == m.back(), "[] or at() of a const string");
        CHECK((char)*(s.end() - 1) == m.back() && (char)*(s.begin() + (m.size() - 1)) == m.back() && (size_t)(s.end() - s.begin()) == m.size(), "iterators");
    }
    c.observe(m);
}

template <class S> static auto set_cstr(S& s, const char* l, int) -> decltype(s = l, void()) { s = l; }
template <class S> static void set_cstr(S& s, const char* l, long) { estd::layer2::const_string o(l); s = o; }

struct Cfg { int cap; bool nullterm; };

// operations shared by every flavour
template <class S> static bool step(Ctx& c, S& s, std::string& m, size_t cap)
{
    const size_t room = cap - m.size();
    static const char* lits[] = { "a", "", "ba" };
    const int op = c.pick(22);
    switch(op)
    {
        case 0: { if(room < 1) return false; char ch = c.flip() ? 'b' : 'a'; c.log("+= '%c'", ch); s += ch; m += ch; return true; }
        case 1: { const char* l = c.of(lits); if(strlen(l) > room) return false; c.log("append(\"%s\")", l); s.append(l); m.append(l); return true; }
        case 2: { if(m.empty()) return false; c.log("pop_back()"); s.pop_back(); m.pop_back(); return true; }
        case 3: { size_t n = c.pick((int)m.size() + 1); size_t k = c.pick((int)(m.size() - n) + 5);
                  if(k == m.size() - n + 1) { c.log("erase(%zu)", n); s.erase(n); m.erase(n); }
                  else if(k == m.size() - n + 2) { c.log("erase(%zu, npos)", n); s.erase(n, S::npos); m.erase(n); }
                  else if(k > m.size() - n) { k -= 2; c.log("erase(%zu,%zu)", n, k); s.erase(n, k); m.erase(n, k); }
                  else { c.log("erase(%zu,%zu)", n, k); s.erase(n, k); m.erase(n, k); } return true; }
        case 4: { size_t n = c.pick((int)m.size() + 1); const char* l = c.of(lits); if(strlen(l) > room) return false;
                  c.log("insert(%zu,\"%s\")", n, l); s.insert(n, l); m.insert(n, l); return true; }
        case 5: { c.log("clear()"); s.clear(); m.clear(); return true; }
        case 6: { static const char* a[] = { "b", "", "aab" }; const char* l = c.of(a); if(strlen(l) > cap) return false;
                  c.log("= \"%s\"", l); set_cstr(s, l, 0); m = l; return true; }
        case 7: { if(room < 2) return false; c.log("append(\"abb\",2)"); s.append("abb", 2); m.append("abb", 2); return true; }
        case 8: { if(room < 3) return false; c.log("append(3,'b')"); s.append(3, 'b'); m.append(3, 'b'); return true; }
        case 9: { estd::layer1::string<8> o("ab"); if(room < 2) return false; if(c.flip()) { c.log("+= layer1 \"ab\""); s += o; } else { c.log("append(layer1 \"ab\")"); s.append(o); } m += "ab"; return true; }
        case 10: { estd::layer1::string<8> o("ba"); if(cap < 2) return false; c.log("= layer1 \"ba\""); s = o; m = "ba"; return true; }
        case 11: { size_t n = c.pick((int)m.size() + 1); if(room < 2) return false;
                   estd::layer2::const_string o("ba"); c.log("insert(%zu, layer2 \"ba\")", n); s.insert(n, o); m.insert(n, "ba"); return true; }
        case 12: { size_t n = c.pick((int)m.size() + 1); c.log("resize(%zu)", n); s.resize(n); m.resize(n); return true; }
        case 13: { size_t n = c.pick((int)m.size() + 1); if(room < 2) return false;
                   c.log("insert(%zu,\"ab!\",2)", n); s.insert(n, "ab!", 2); m.insert(n, "ab!", 2); return true; }
        case 14: { size_t n = c.pick((int)m.size() + 1); if(room < 1) return false; c.log("insert(begin()+%zu,'b')", n);
                   s.insert(s.begin() + n, 'b'); m.insert(m.begin() + n, 'b'); return true; }
        case 16: case 17: case 18: case 19: case 20: case 21:
        {
            // text from elsewhere that knows its length: the bytes behind it do not belong to it
            static const char store[] = "abbaXY";
            size_t k = c.pick(4), off = k ? c.pick(2) : 0; std::string part(store + off, k);
            if(k > room && op != 21) return false;
            if(k > cap) return false;
            estd::string_view v(store + off, k); estd::layer3::const_string cs(store + off, k);
            estd::layer1::basic_string<char, 6, false> sz; sz.append(store + off, 6 - off); sz.resize(k);
            size_t n = op == 18 || op == 19 ? c.pick((int)m.size() + 1) : 0;
            int kind = c.pick(3);
            const char* kn = kind == 0 ? "view" : kind == 1 ? "const_string" : "sized string";
            switch(op)
            {
                case 16: c.log("append(%s %s)", kn, part.c_str()); if(kind == 0) s.append(v); else if(kind == 1) s.append(cs); else s.append(sz); m += part; return true;
                case 17: c.log("+= %s %s", kn, part.c_str()); if(kind == 0) s += v; else if(kind == 1) s += cs; else s += sz; m += part; return true;
                case 18: c.log("insert(%zu, %s %s)", n, kn, part.c_str()); if(kind == 0) s.insert(n, v); else if(kind == 1) s.insert(n, cs); else s.insert(n, sz); m.insert(n, part); return true;
                case 19: if(kind) return false; c.log("insert(%zu, pointers %s)", n, part.c_str()); s.insert(s.begin() + n, store + off, store + off + k); m.insert(n, part); return true;
                case 20: if(kind) return false; c.log("+= std view %s", part.c_str()); 
#ifdef MC_DEVICE
            s += v;
#else
            s += std::string_view(store + off, k);
#endif
            m += part; return true;
                case 21: c.log("= %s %s", kn, part.c_str()); if(kind == 0) s = v; else if(kind == 1) s = cs; else s = sz; m = part; return true;
            }
            return false;
        }
        case 15: { if(m.empty()) return false; size_t n = c.pick((int)m.size()), last = m.size() - 1;
                   switch(c.pick(4))
                   {
                       case 0: c.log("[%zu]='b'", n); s[n] = 'b'; m[n] = 'b'; return true;
                       case 1: c.log("[%zu]=[%zu]", n, last); s[n] = s[last]; m[n] = m[last]; return true;
                       case 2: if(n) return false; c.log("front()=back()"); s.front() = s.back(); m.front() = m.back(); return true;
                       default: if(n) return false; c.log("swap first and last"); { char t = s[0]; s[0] = s[last]; s[last] = t; } std::swap(m[0], m[last]); return true;
                   } }
    }
    return false;
}

template <class S, class B> static void loop(Ctx& c, S& s, std::string m, size_t cap, bool nullterm, B&& bytes)
{
    agree(c, s, m, nullterm);
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(bytes() + "|" + m, c.bound - d)) return;
        if(!step(c, s, m, cap)) return;
        agree(c, s, m, nullterm);
    }
}

template <size_t N, bool NT> static void layer1_body(Ctx& c)
{
    typedef estd::layer1::basic_string<char, N, NT> S;
    typedef Fixed<S> F;
    F::fill(c.flip() ? 0xAA : 0x00);
    Own<S> s(F::make());
    CHECK(s->max_size() == (NT ? N - 1 : N), "max_size() is %zu", (size_t)s->max_size());
    CHECK(s->capacity() == N || s->capacity() == N - 1, "capacity()");
    loop(c, *s, "", NT ? N - 1 : N, NT, []{ return F::bytes(); });
    CHECK(F::intact(), "memory outside the string object was written");
}
static void l1_nt(Ctx& c) { layer1_body<5, true>(c); }
static void l1_sz(Ctx& c) { layer1_body<4, false>(c); }
SCENARIO_FN(layer1_nullterm, l1_nt, 6, 7);
SCENARIO_FN(layer1_sized, l1_sz, 6, 7);

struct Buf { char b[16]; };
typedef Fixed<Buf, 7> FB;

template <bool NT> static void layer2_body(Ctx& c)
{
    typedef estd::layer2::basic_string<char, 5, NT> S;
    FB::fill(0x55); Buf* b = (Buf*)FB::raw();
    b->b[0] = 'z'; b->b[1] = 0;
    S s(b->b);
    loop(c, s, "z", 4, NT, []{ return std::string(((Buf*)FB::raw())->b, 16); });
    for(int i = 5; i < 16; i++) CHECK(b->b[i] == 0x55, "byte %d beyond the 5-byte buffer was written", i);
}
static void l2_nt(Ctx& c) { layer2_body<true>(c); }
SCENARIO_FN(layer2_nullterm, l2_nt, 6, 7);

template <bool NT> static void layer3_body(Ctx& c)
{
    typedef estd::layer3::basic_string<char, NT> S;
    typedef Fixed<S, 3> F;
    FB::fill(0x55); Buf* b = (Buf*)FB::raw();
    b->b[0] = 'z'; b->b[1] = 0;
    F::fill(0x33);
    Own<S> s(F::make(b->b, (typename S::size_type)1, (typename S::size_type)5));
    loop(c, *s, "z", NT ? 4 : 5, NT, []{ return std::string(((Buf*)FB::raw())->b, 16) + F::bytes(); });
    for(int i = 5; i < 16; i++) CHECK(b->b[i] == 0x55, "byte %d beyond the 5-byte buffer was written", i);
    CHECK(F::intact(), "memory outside the string object was written");
}
static void l3_nt(Ctx& c) { layer3_body<true>(c); }
static void l3_sz(Ctx& c) { layer3_body<false>(c); }
SCENARIO_FN(layer3_nullterm, l3_nt, 6, 7);
SCENARIO_FN(layer3_sized, l3_sz, 5, 7);

// strings long enough for their length to need more than one byte
template <class S, class B> static void large_loop(Ctx& c, S& s, size_t cap, bool nullterm, B&& bytes)
{
    std::string m;
    size_t start = cap - c.pick(4);                       // just below the limit ...
    if(c.flip()) start = 253 + c.pick(5);                // ... or around one byte's range
    if(start > cap) return;
    for(size_t i = 0; i < start; i++) { char ch = (char)('a' + i % 26); s += ch; m += ch; }
    agree(c, s, m, nullterm);
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(m, c.bound - d)) return;
        const size_t room = cap - m.size();
        size_t at[] = { 0, 1, m.size() / 2, m.size() ? m.size() - 1 : 0, m.size() };
        switch(c.pick(6))
        {
            case 0: if(room < 1) return; c.log("+= '!'"); s += '!'; m += '!'; break;
            case 1: if(m.empty()) return; c.log("pop_back()"); s.pop_back(); m.pop_back(); break;
            case 2: { size_t n = c.of(at); size_t ks[] = { 1, m.size() / 2 + 3, m.size() ? m.size() - 1 : 0, 300 }; size_t k = c.of(ks); if(n > m.size() || k > S::npos) return; c.log("erase(%zu,%zu)", n, k); s.erase(n, k); m.erase(n, k); break; }
            case 3: { size_t n = c.of(at); if(room < 2 || n > m.size()) return; c.log("insert(%zu,\"<>\")", n); s.insert(n, "<>"); m.insert(n, "<>"); break; }
            case 4: { if(room < 3) return; c.log("append(\"123\")"); s.append("123"); m.append("123"); break; }
            case 5: { size_t n = c.of(at); if(n > m.size()) return; c.log("resize(%zu)", n); s.resize(n); m.resize(n); break; }
        }
        agree(c, s, m, nullterm);
    }
}
template <size_t N, bool NT> static void l1_large_body(Ctx& c)
{
    typedef estd::layer1::basic_string<char, N, NT> S;
    typedef Fixed<S, 9> F;
    F::fill(0xAA);
    Own<S> s(F::make());
    large_loop(c, *s, NT ? N - 1 : N, NT, []{ return F::bytes(); });
    CHECK(F::intact(), "memory outside the string object was written");
}
static void l1_large_a(Ctx& c) { l1_large_body<300, true>(c); }
static void l1_large_b(Ctx& c) { l1_large_body<256, true>(c); }
static void l1_large_c(Ctx& c) { l1_large_body<257, false>(c); }
static void l1_large_d(Ctx& c) { l1_large_body<255, false>(c); }
static void l1_large_e(Ctx& c) { l1_large_body<256, false>(c); }
// ... and long enough for a tail to be far longer than one byte can count
static void l1_large_f(Ctx& c) { l1_large_body<1300, true>(c); }
static void l1_large_g(Ctx& c) { l1_large_body<1300, false>(c); }
SCENARIO_FN(layer1_large_1300_nullterm, l1_large_f, 2, 4);
SCENARIO_FN(layer1_large_1300_sized, l1_large_g, 2, 4);
SCENARIO_FN(layer1_large_300_nullterm, l1_large_a, 3, 5);
SCENARIO_FN(layer1_large_256_nullterm, l1_large_b, 3, 5);
SCENARIO_FN(layer1_large_257_sized, l1_large_c, 3, 5);
SCENARIO_FN(layer1_large_255_sized, l1_large_d, 3, 5);
SCENARIO_FN(layer1_large_256_sized, l1_large_e, 3, 5);

// a string edited with (part of) its own content
template <class S, class T> static auto assign_text(S& s, const T& t, int) -> decltype(s = t, bool()) { s = t; return true; }
template <class S, class T> static bool assign_text(S&, const T&, long) { return false; }

template <class S> static bool self_step(Ctx& c, S& s, std::string& m, size_t cap, bool nullterm)
{
    const size_t room = cap - m.size();
    const int op = c.pick(9);
    const size_t from = op >= 2 ? c.pick((int)m.size() + 1) : 0;
    const size_t n = op >= 2 ? (op == 8 ? m.size() - from : c.pick((int)(m.size() - from) + 1)) : m.size();
    const std::string part = m.substr(from, n);
    const size_t at = op == 1 || op == 3 || op == 4 ? c.pick((int)m.size() + 1) : 0;
    const char* p = s.clock() + from; s.cunlock();
    if(op <= 5 && n > room) return false;
    switch(op)
    {
        case 0: switch(c.pick(3))
                {
                    case 0: c.log("+= itself"); s += s; break;
                    case 1: c.log("append(itself)"); s.append(s); break;
                    default: c.log("= itself"); s = s; return true;
                }
                m += part; return true;
        case 1: c.log("insert(%zu, itself)", at); s.insert(at, s); m.insert(at, part); return true;
        case 2: c.log("append(own+%zu, %zu)", from, n); s.append(p, n); m += part; return true;
        case 3: c.log("insert(%zu, own+%zu, %zu)", at, from, n); s.insert(at, p, n); m.insert(at, part); return true;
        case 4: c.log("insert(%zu, view of own+%zu, %zu)", at, from, n); s.insert(at, estd::string_view(p, n)); m.insert(at, part); return true;
        case 5: c.log("+= view of own+%zu, %zu", from, n); s += estd::string_view(p, n); m += part; return true;
        case 6: { c.log("= view of own+%zu, %zu", from, n); s = estd::string_view(p, n); m = part; return true; }
        case 7: if(!m.size() || n != 1) return false; c.log("+= own [%zu]", from); if(!room) return false; s += (char)s[from]; m += part; return true;
        case 8: if(!nullterm) return false; c.log("= own+%zu", from); if(!assign_text(s, p, 0)) return false; m = part; return true;
    }
    return false;
}
template <class S, class B> static void self_loop(Ctx& c, S& s, size_t cap, bool nullterm, B&& bytes)
{
    std::string m = std::string("abcdefgh").substr(0, c.pick(5));
    s = estd::string_view(m.data(), m.size());
    agree(c, s, m, nullterm);
    for(int d = 0; d < c.bound; d++)
    {
        if(c.visited(bytes() + "|" + m, c.bound - d)) return;
        if(!self_step(c, s, m, cap, nullterm)) return;
        agree(c, s, m, nullterm);
    }
}
template <size_t N, bool NT> static void self1(Ctx& c)
{
    typedef estd::layer1::basic_string<char, N, NT> S; typedef Fixed<S, 2> F;
    F::fill(0xAA); Own<S> s(F::make());
    self_loop(c, *s, NT ? N - 1 : N, NT, []{ return F::bytes(); });
    CHECK(F::intact(), "memory outside the string object was written");
}
static void self2(Ctx& c)
{
    FB::fill(0x55); Buf* b = (Buf*)FB::raw(); b->b[0] = 0;
    estd::layer2::basic_string<char, 9, true> s(b->b);
    self_loop(c, s, 8, true, []{ return std::string(((Buf*)FB::raw())->b, 16); });
    for(int i = 9; i < 16; i++) CHECK(b->b[i] == 0x55, "byte %d beyond the 9-byte buffer was written", i);
}
template <bool NT> static void self3(Ctx& c)
{
    typedef estd::layer3::basic_string<char, NT> S; typedef Fixed<S, 4> F;
    FB::fill(0x55); Buf* b = (Buf*)FB::raw(); b->b[0] = 0;
    F::fill(0x33); Own<S> s(F::make(b->b, (typename S::size_type)0, (typename S::size_type)9));
    self_loop(c, *s, NT ? 8 : 9, NT, []{ return std::string(((Buf*)FB::raw())->b, 16) + F::bytes(); });
    for(int i = 9; i < 16; i++) CHECK(b->b[i] == 0x55, "byte %d beyond the 9-byte buffer was written", i);
}
static void se1a(Ctx& c) { self1<9, true>(c); }
static void se1b(Ctx& c) { self1<8, false>(c); }
static void se3a(Ctx& c) { self3<true>(c); }
static void se3b(Ctx& c) { self3<false>(c); }
SCENARIO_FN(own_content_layer1_nullterm, se1a, 2, 4);
SCENARIO_FN(own_content_layer1_sized, se1b, 2, 4);
SCENARIO_FN(own_content_layer2, self2, 2, 4);
SCENARIO_FN(own_content_layer3_nullterm, se3a, 2, 4);
SCENARIO_FN(own_content_layer3_sized, se3b, 2, 4);

// ---- units wider than a byte
template <class C> static void units(Ctx& c)
{
    typedef estd::layer1::basic_string<C, 4, false> S; typedef std::basic_string<C> M; typedef Fixed<S, 5> F; F::fill(0xA5); Own<S> s(F::make()); M m;
    static const C w[] = {(C)0x161, (C)0x261, (C)0x162, 0}; enum { cap = 4 };
    auto spell = [](const M& a) { std::string r = "["; for(C u : a) { char b[16]; snprintf(b, 16, "%lx ", (unsigned long)u); r += b; } return r + "]"; };
    for(int d = 0;; d++)
    {
        const S& k = *s; M got; for(size_t i = 0; i < (size_t)k.size() && i < 8; i++) { C u = k[i]; got += u; }
        CHECK(got == m && k.empty() == m.empty() && k.size() == m.size(), "units: %s, expected %s", spell(got).c_str(), spell(m).c_str());
        M it; for(C u : k) it += u; CHECK(it == m && (k.data() == nullptr || m.empty() || std::equal(m.begin(), m.end(), k.data())), "units: iterating %s, expected %s", spell(it).c_str(), spell(m).c_str());
        if(!m.empty()) { C f = k.front(), b = k.back(); CHECK(f == m.front() && b == m.back(), "units: first %lx, last %lx of %s", (unsigned long)f, (unsigned long)b, spell(m).c_str()); }
        CHECK(F::intact(), "units: wrote outside"); c.observe(spell(m)); if(d == c.bound || c.visited(spell(m), c.bound - d)) return;
        size_t room = cap - m.size();
        switch(c.pick(11))
        {
            case 0: { if(!room) return; C u = w[c.pick(2)]; c.log("+= %lx", (unsigned long)u); *s += u; m += u; break; }
            case 1: { if(room < 2) return; int o = c.pick(2); c.log("append 2 at %d", o); s->append(w + o, 2); m.append(w + o, 2); break; }
            case 2: { size_t n = c.pick(4); if(room < n) return; c.log("append view of %zu", n); s->append(estd::basic_string_view<C>(w, n)); m.append(w, n); break; }
            case 3: if(m.empty()) return; c.log("pop_back"); s->pop_back(); m.pop_back(); break;
            case 4: { size_t i = c.pick((int)m.size() + 1), n = c.pick((int)(m.size() - i) + 1); c.log("erase(%zu,%zu)", i, n); s->erase(i, n); m.erase(i, n); break; }
            case 5: { size_t i = c.pick((int)m.size() + 1), n = 1 + c.pick(2); if(room < n) return; c.log("insert(%zu, %zu)", i, n); s->insert(i, w, n); m.insert(i, w, n); break; }
            case 6: c.log("clear"); s->clear(); m.clear(); break;
            case 7: { size_t n = c.pick((int)m.size() + 1); c.log("resize(%zu)", n); s->resize(n); m.resize(n); break; }
            case 8: { size_t n = c.pick(4); c.log("= view of %zu", n); *s = estd::basic_string_view<C>(w, n); m.assign(w, n); break; }
            case 9: { if(!room) return; s->push_back(w[2]); c.log("push_back"); m += w[2]; break; }
            case 10: { if(m.empty()) return; size_t i = c.pick((int)m.size()); c.log("[%zu] = ", i); (*s)[i] = w[1]; m[i] = w[1]; break; }
        }
    }
}
SCENARIO_FN(units_wchar, units<wchar_t>, 6, 8);
SCENARIO_FN(units_char16, units<char16_t>, 6, 8);
