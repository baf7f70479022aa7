// Property C38: flag sets combine and test exactly the flags meant.
#include <estd/flags.h>
#include "mc.h"
using namespace mc;

namespace plain { enum F : int { none = 0, a = 1, b = 2, c = 4, d = 8, top = 128, all = 0x7fffffff }; ESTD_FLAGS(F) }
namespace uns { enum F : unsigned { none = 0, a = 1, b = 2, top = 0x80000000u }; ESTD_FLAGS(F) }
namespace scoped { enum class F : unsigned { none = 0, a = 1, b = 2, top = 0x80000000u }; ESTD_FLAGS(F) inline F& operator|=(F& l, F r) { return l = F(unsigned(l) | unsigned(r)); } }
namespace wide { enum class F : unsigned long long { none = 0, a = 1, top = 1ull << 63 }; ESTD_FLAGS(F) }
namespace bare { enum F { none = 0, a = 1, b = 2, top = 0x40 }; ESTD_FLAGS(F) }

template <class F, class I, bool complement = true> static void algebra(Ctx& c, const std::vector<I>& vs)
{
    typedef estd::detail::v1::flags<F> X;
    I a = c.of(vs), b = c.of(vs); F fa = F(a), fb = F(b); const X x(fa), y(fb);
    auto is = [&](const char* what, const X& r, I want) { CHECK(I(r.value()) == want, "%s: of %llx and %llx is %llx, expected %llx", what, (unsigned long long)a, (unsigned long long)b, (unsigned long long)I(r.value()), (unsigned long long)want);
        CHECK(F(r) == F(want) && I(F(r)) == want, "conversion: of %llx", (unsigned long long)want); CHECK((r ? true : false) == (want != 0), "test: %llx says %d", (unsigned long long)want, r ? 1 : 0); };
    is("holding", x, a); is("or", x | fb, a | b); is("and", x & fb, a & b); is("xor", x ^ fb, a ^ b);
    if constexpr(complement) { is("not", ~x, I(~a)); is("not of a name", ~fa, I(~a)); is("clearing", x & F(~fb), I(a & ~b)); }
    is("or of names", fa | fb, a | b); is("and of names", fa & fb, a & b); is("xor of names", fa ^ fb, a ^ b);
    is("made from a number", X(I(a)), a); is("chained", (fa | fb) ^ fb, I((a | b) ^ b));
    CHECK((x == y) == (a == b) && (x != y) == (a != b), "equality: %llx and %llx", (unsigned long long)a, (unsigned long long)b); CHECK((x == fb) == (a == b), "equality with a name: %llx and %llx", (unsigned long long)a, (unsigned long long)b);
    X z(x); z = y; is("assigned", z, b); is("source", y, b);
    c.observe(std::to_string(a) + "," + std::to_string(b));
}
template <class I> static std::vector<I> values(int n) { std::vector<I> v; for(int i = 0; i < n; i++) v.push_back(I(i)); for(int s = 3; s < (int)sizeof(I) * 8 - 1; s++) { v.push_back(I(1) << s); v.push_back((I(1) << s) | 1); } v.push_back(I(~I(0))); v.push_back(I(I(1) << (sizeof(I) * 8 - 2))); return v; }
static void f1(Ctx& c) { algebra<plain::F, int>(c, values<int>(256)); }
static void f2(Ctx& c) { algebra<uns::F, unsigned>(c, values<unsigned>(64)); }
static void f3(Ctx& c) { algebra<scoped::F, unsigned>(c, values<unsigned>(64)); }
static void f4(Ctx& c) { algebra<wide::F, unsigned long long>(c, values<unsigned long long>(64)); }
static void f5(Ctx& c) { std::vector<unsigned> v; for(unsigned i = 0; i < 128; i++) v.push_back(i); algebra<bare::F, unsigned, false>(c, v); }
SCENARIO_FN(of_int, f1, 1, 1);
SCENARIO_FN(of_unsigned, f2, 1, 1);
SCENARIO_FN(scoped_enum, f3, 1, 1);
SCENARIO_FN(wide_enum, f4, 1, 1);
SCENARIO_FN(bare_enum, f5, 1, 1);

// taking flags in, in place, for a type that can
template <class F, class I> static void taking(Ctx& c, const std::vector<I>& vs)
{
    typedef estd::detail::v1::flags<F> X; I a = c.of(vs), b = c.of(vs), d = c.of(std::vector<I>{0, 1, 3, I(1) << (sizeof(I) * 8 - 1)}); X x{F(a)}; const X y{F(b)};
    X& r = x |= y; CHECK(&r == &x && I(x.value()) == (a | b) && I(y.value()) == b, "taking in: %llx and %llx make %llx", (unsigned long long)a, (unsigned long long)b, (unsigned long long)I(x.value()));
    (x |= F(d)) |= x; CHECK(I(x.value()) == (a | b | d), "taking in: %llx, %llx and %llx make %llx", (unsigned long long)a, (unsigned long long)b, (unsigned long long)d, (unsigned long long)I(x.value())); c.observe(std::to_string(I(x.value())));
}
static void f6(Ctx& c) { taking<scoped::F, unsigned>(c, values<unsigned>(32)); }
SCENARIO_FN(taking_in, f6, 1, 1);
