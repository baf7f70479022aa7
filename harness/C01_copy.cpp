// Property C01 (copying): a string given another string's content holds exactly that, whatever the two kinds, and shares nothing with it.
// ALSO: DEVICE
#include <estd/string.h>
#include <estd/string_view.h>
#include "mc.h"
using namespace mc;
static const size_t Room = 6;
// one string of each kind, in storage that tells of writes outside
template <int N, bool Null> struct L1 { typedef estd::layer1::basic_string<char, N, Null> S; typedef Fixed<S, N * 2 + Null> F; S* p; L1() { F::fill(0xA5); p = F::make(); } template <class T> void again(const T& t) { p->~S(); F::fill(0xA5); p = F::make(t); } ~L1() { p->~S(); } bool intact() { return F::intact(); } static constexpr const bool copies = true; S& operator*() { return *p; } };
template <int Slot> struct L2 { typedef estd::layer2::string<Room + 1> S; char* m; S* p; L2() { m = (char*)malloc(Room + 1); memset(m, 0x7e, Room + 1); m[0] = 0; p = new S(m); } ~L2() { delete p; free(m); } bool intact() { return true; } static constexpr const bool copies = false; template <class T> void again(const T&) {} S& operator*() { return *p; } };
template <int Slot> struct L3 { typedef estd::layer3::string S; char* m; S* p; L3() { m = (char*)malloc(Room + 1); memset(m, 0x7e, Room + 1); p = new S(m, S::size_type(0), S::size_type(Room + 1)); } ~L3() { delete p; free(m); } bool intact() { return true; } static constexpr const bool copies = false; template <class T> void again(const T&) {} S& operator*() { return *p; } };
template <class S> static std::string text(S& s) { std::string r; for(size_t i = 0; i < (size_t)s.size(); i++) r += (char)s[i]; return r; }
template <class A, class B> static void between(Ctx& c)
{
    A a; B b; std::string ma, mb; int next = 0;
    auto same = [&](const char* at) { CHECK(text(*a) == ma && text(*b) == mb, "text: %s and %s, expected %s and %s (%s)", show(text(*a)).c_str(), show(text(*b)).c_str(), show(ma).c_str(), show(mb).c_str(), at); CHECK((*a).empty() == ma.empty() && (*b).empty() == mb.empty(), "empty: wrong"); CHECK(a.intact() && b.intact(), "outside: wrote outside the string"); CHECK((*a == *b) == (ma == mb), "equal: %d", (int)(*a == *b)); };
    for(int d = 0;; d++)
    {
        same("after"); c.observe(ma + "|" + mb); if(d == c.bound || c.visited(ma + "|" + mb, c.bound - d)) return;
        switch(c.pick(10))
        {
            case 0: if(ma.size() < Room) { c.log("a += x"); char ch = "xyz"[ma.size() % 3]; *a += ch; ma += ch; } break;
            case 1: if(mb.size() < Room) { c.log("b += y"); char ch = "pq\xff"[mb.size() % 3]; *b += ch; mb += ch; } break;
            case 2: c.log("a.clear"); (*a).clear(); ma.clear(); break;
            case 3: c.log("b.clear"); (*b).clear(); mb.clear(); break;
            case 4: c.log("a = b"); *a = *b; ma = mb; break;
            case 5: c.log("b = a"); *b = *a; mb = ma; break;
            case 6: if(A::copies) { c.log("a made of b"); a.again(*b); ma = mb; } break;
            case 7: if(B::copies) { c.log("b made of a"); b.again(*a); mb = ma; } break;
            case 8: if(ma.size() + mb.size() <= Room) { c.log("a += b"); *a += *b; ma += mb; } break;
            case 9: { c.log("a = view"); int n = c.pick(4); std::string v = std::string("t\xffw").substr(0, n); estd::string_view sv(v.data(), n); *a = sv; ma = v; break; }
        }
    }
}
static void c1(Ctx& c) { between<L1<7, true>, L1<9, true>>(c); } static void c2(Ctx& c) { between<L1<7, true>, L1<6, false>>(c); } static void c3(Ctx& c) { between<L1<6, false>, L1<8, false>>(c); } static void c4(Ctx& c) { between<L1<7, true>, L2<0>>(c); }
static void c5(Ctx& c) { between<L1<6, false>, L2<0>>(c); } static void c6(Ctx& c) { between<L1<7, true>, L3<0>>(c); } static void c7(Ctx& c) { between<L1<6, false>, L3<0>>(c); } static void c8(Ctx& c) { between<L2<0>, L3<1>>(c); } static void c9(Ctx& c) { between<L3<0>, L2<1>>(c); } static void c10(Ctx& c) { between<L1<300, true>, L1<7, true>>(c); }
SCENARIO_FN(copy_layer1, c1, 7, 10);
SCENARIO_FN(copy_layer1_kinds, c2, 7, 10);
SCENARIO_FN(copy_layer1_sized, c3, 7, 10);
SCENARIO_FN(copy_layer1_layer2, c4, 7, 10);
SCENARIO_FN(copy_sized_layer2, c5, 7, 10);
SCENARIO_FN(copy_layer1_layer3, c6, 7, 10);
SCENARIO_FN(copy_sized_layer3, c7, 7, 10);
SCENARIO_FN(copy_layer2_layer3, c8, 7, 10);
SCENARIO_FN(copy_layer3_layer2, c9, 7, 10);
SCENARIO_FN(copy_large, c10, 6, 8);
