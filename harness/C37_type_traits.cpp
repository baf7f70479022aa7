// Property C37: questions about types have the standard's answers.
// ALSO: DEVICE
// MODE: nosan
// FLAGS: -O0
#include <estd/type_traits.h>
#include <estd/functional.h>
#include <estd/utility.h>
#include <estd/string.h>
#include <estd/optional.h>
#include <type_traits>
#include <functional>
#include <limits>
#include <memory>
#include "mc.h"
using namespace mc;

namespace {
enum En { e0 }; enum class Ec : unsigned char { x }; enum class El : long long { y };
union Un { int a; float b; }; struct Empty {}; struct Plain { int a; char b; }; struct Base { int b; }; struct Derived : Base { int d; }; struct Private : private Base {}; struct Further : Derived {};
struct Poly { virtual ~Poly() {} virtual int f() { return 1; } }; struct PolyDerived : Poly {}; struct Abstract { virtual void f() = 0; };
struct Final final { int x; }; struct EmptyDerived : Empty {};
struct NoCopy { NoCopy() = default; NoCopy(const NoCopy&) = delete; NoCopy& operator=(const NoCopy&) = delete; };
struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly&&); MoveOnly& operator=(MoveOnly&&); };
struct NoAssign { const int k; NoAssign(int); NoAssign(const NoAssign&) = default; NoAssign& operator=(const NoAssign&) = delete; };
struct FromInt { FromInt(int); }; struct FromIntExplicit { explicit FromIntExplicit(int); }; struct ToInt { operator int() const; }; struct ToIntExplicit { explicit operator int() const; };
struct Noisy { Noisy(); Noisy(const Noisy&); Noisy(Noisy&&) noexcept; ~Noisy(); Noisy& operator=(const Noisy&); Noisy& operator=(Noisy&&) noexcept; };
struct AmbL : Base {}; struct AmbR : Base {}; struct Amb : AmbL, AmbR {}; struct VBase : virtual Base {};
struct Call { int operator()(int); long operator()(Base&, char) const; };
struct MyClassIncludingUnionMember { union { int a; char b; }; };
struct NoDefault { NoDefault(char, int); };
}

template <class... T> struct List {};
typedef List<void, const void, volatile void, bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, wchar_t, char16_t, char32_t, float, double, long double,
    const int, volatile int, const volatile int, const bool, volatile unsigned char, const char, const long double, const volatile double, int&, const int&, volatile int&, int&&, const int&&, const volatile unsigned&&,
    int*, const int*, int* const, int* volatile, int* const volatile, const char* const, void*, const void*, int**, int*&, const char* const&, int* const&&, std::nullptr_t, const std::nullptr_t> Scalars;
typedef List<int[], int[3], const int[3], int[2][3], const char[], char (&)[4], const int (&)[3], int (&&)[2], int* [3], int (*)[3], volatile int[5], Plain[2], const Base[]> Arrays;
typedef List<void(), int(int), int(int, ...), void() const, void() volatile, void() const volatile, void() &, void() const &, void() &&, int(char) const &&, int(int) noexcept, int(int, ...) noexcept, void() noexcept, void() const noexcept, void() & noexcept, int(...) const, int(...) volatile &&,
    void (*)(), int (*)(int), int (* const)(int), int (&)(int), int (&&)(int), int (*)(int, ...), int (*)(int) noexcept, void (**)(), int (*(int))(char)> Functions;
typedef List<En, Ec, El, const En, volatile Ec, En*, const Ec&, Un, const Un, Un*, Un&, Empty, const Empty, EmptyDerived, Plain, const Plain, volatile Plain, Plain*, const Plain*, Plain&, const Plain&, Plain&&,
    Base, Derived, const Derived, Private, Further, Poly, PolyDerived, Abstract, Final, NoCopy, MoveOnly, NoAssign, FromInt, FromIntExplicit, ToInt, ToIntExplicit, Noisy, Amb, VBase, Call, MyClassIncludingUnionMember, NoDefault,
    Base*, Derived*, const Base*, const Derived*, Base&, Derived&, const Base&, Base&&, Derived&&, Private*, Poly&, PolyDerived&, Poly*, PolyDerived*, Further*, Amb*, VBase*> Classes;
typedef List<int Plain::*, const int Plain::*, int Plain::* const, Base Plain::*, int (Plain::*)(), int (Plain::*)() const, void (Plain::*)(int) noexcept, int (Plain::* const)(int, ...), int (Plain::*)() &, int (Plain::*)() const &&, int Plain::*&, int (Base::*)(), int (Derived::*)(), int Base::*, int Derived::*, std::unique_ptr<int>, std::string, estd::optional<int>, estd::reference_wrapper<int>> Others;

struct Row { const char* trait; std::string type; int got, want; };
template <class T> static std::string tname() { std::string s = __PRETTY_FUNCTION__; size_t a = s.find("T = "); size_t b = s.find(';', a); return s.substr(a + 4, (b == std::string::npos ? s.size() - 1 : b) - a - 4); }
static void judge(Ctx& c, const char* trait, const std::string& t, int got, int want)
{
    CHECK(got == want, "%s: of [%s] is %d, expected %d", trait, t.c_str(), got, want);
}

// ---- one type: questions with a yes or no
#define ASK(trait) judge(c, #trait, tname<T>(), estd::trait<T>::value, std::trait<T>::value)
#define TO(trait) do { typedef typename estd::trait<T>::type G; typedef typename std::trait<T>::type W; CHECK((std::is_same<G, W>::value), "%s: of [%s] is [%s], expected [%s]", #trait, tname<T>().c_str(), tname<G>().c_str(), tname<W>().c_str()); } while(0)
template <class T, class = void> struct Referable : std::is_void<T> {}; template <class T> struct Referable<T, std::void_t<T&>> : std::true_type {};
template <class T> static void questions(Ctx& c)
{
    ASK(is_const); ASK(is_volatile); ASK(is_reference); ASK(is_lvalue_reference); ASK(is_rvalue_reference); ASK(is_array); ASK(is_pointer); ASK(is_integral); ASK(is_floating_point); ASK(is_arithmetic); ASK(is_signed);
    ASK(is_function); ASK(is_member_pointer); ASK(is_member_function_pointer); ASK(is_member_object_pointer); ASK(is_void);
    constexpr bool complete = !std::is_void<T>::value && !std::is_function<T>::value && !(std::is_array<T>::value && std::extent<T>::value == 0);
    if constexpr(!std::is_union<T>::value) ASK(is_class);
    ASK(is_unsigned);
    if constexpr(!std::is_union<T>::value && !std::is_member_pointer<T>::value && !std::is_null_pointer<T>::value) ASK(is_enum);
    TO(remove_const); TO(remove_volatile); TO(remove_cv); TO(remove_reference); TO(remove_extent); TO(remove_pointer); TO(add_const); TO(add_volatile); TO(add_cv);
    if constexpr(Referable<T>::value) TO(decay);
    if constexpr(!std::is_function<T>::value) TO(add_pointer);
    { typedef typename estd::remove_cvref<T>::type G; typedef std::remove_cv_t<std::remove_reference_t<T>> W; CHECK((std::is_same<G, W>::value), "remove_cvref: of [%s] is [%s]", tname<T>().c_str(), tname<G>().c_str()); }
    if constexpr(!std::is_void<T>::value && !std::is_function<T>::value) { TO(add_lvalue_reference); TO(add_rvalue_reference); }
    if constexpr(complete) { ASK(is_trivial); ASK(is_trivially_copyable); ASK(is_copy_constructible); ASK(is_move_constructible); ASK(is_copy_assignable); ASK(is_move_assignable); ASK(is_nothrow_move_constructible); ASK(is_nothrow_move_assignable); ASK(alignment_of); }
    if constexpr(complete && std::is_class<T>::value) ASK(is_empty);
    c.state(tname<T>());
}
// ---- two types
enum { Same, Convertible, BaseOf, Constructible, Assignable, Chosen, Other, Questions };
static const char* question[] = {"is_same", "is_convertible", "is_base_of", "is_constructible", "is_assignable", "conditional true", "conditional false"};
template <class T> constexpr bool object = !std::is_void<T>::value && !std::is_function<T>::value && !(std::is_array<T>::value && std::extent<T>::value == 0);
template <bool, class A, class B> struct Ask { static constexpr bool v = false; };
template <class A, class B> struct Ask<true, A, B> { static constexpr bool v = A::value; };
template <class T, class U> struct Rel
{
    static constexpr bool bases = !std::is_union<T>::value && !std::is_union<U>::value;
    static constexpr unsigned got = estd::is_same<T, U>::value << Same | estd::is_convertible<T, U>::value << Convertible | Ask<bases, estd::is_base_of<T, U>, void>::v << BaseOf | Ask<object<T>, estd::is_constructible<T, U>, void>::v << Constructible
        | estd::is_assignable<T, U>::value << Assignable | std::is_same<typename estd::conditional<true, T, U>::type, T>::value << Chosen | std::is_same<typename estd::conditional<false, T, U>::type, U>::value << Other;
    static constexpr unsigned want = std::is_same<T, U>::value << Same | std::is_convertible<T, U>::value << Convertible | Ask<bases, std::is_base_of<T, U>, void>::v << BaseOf | Ask<object<T>, std::is_constructible<T, U>, void>::v << Constructible
        | std::is_assignable<T, U>::value << Assignable | 1 << Chosen | 1 << Other;
};
template <class T, class... U> static void relations(Ctx& c)
{
    static constexpr unsigned got[] = {Rel<T, U>::got...}, want[] = {Rel<T, U>::want...};
    const std::string names[] = {tname<U>()...};
    for(size_t i = 0; i < sizeof...(U); i++) for(int q = 0; q < Questions; q++) CHECK((got[i] >> q & 1) == (want[i] >> q & 1), "%s: of [%s] [%s] is %u, expected %u", question[q], tname<T>().c_str(), names[i].c_str(), got[i] >> q & 1, want[i] >> q & 1);
    c.state(tname<T>());
}
template <class... T> static void each(Ctx& c, List<T...>) { int k = c.pick((int)sizeof...(T)), i = 0; (void)std::initializer_list<int>{(i++ == k ? (questions<T>(c), 0) : 0)...}; }
template <class T, class... U> static void with(Ctx& c, List<U...>) { relations<T, U...>(c); }
template <class... T, class L2> static void pairs(Ctx& c, List<T...>, L2) { int k = c.pick((int)sizeof...(T)), i = 0; (void)std::initializer_list<int>{(i++ == k ? (with<T>(c, L2{}), 0) : 0)...}; }
static void q1(Ctx& c) { each(c, Scalars{}); } static void q2(Ctx& c) { each(c, Arrays{}); } static void q3(Ctx& c) { each(c, Functions{}); } static void q4(Ctx& c) { each(c, Classes{}); } static void q5(Ctx& c) { each(c, Others{}); }
SCENARIO_FN(scalars, q1, 1, 1);
SCENARIO_FN(arrays, q2, 1, 1);
SCENARIO_FN(functions, q3, 1, 1);
SCENARIO_FN(classes, q4, 1, 1);
SCENARIO_FN(others, q5, 1, 1);
typedef List<void, bool, char, unsigned char, short, int, unsigned, long long, float, double, const int, volatile int, int&, const int&, int&&, int*, const int*, int* const, void*, std::nullptr_t, int[3], int[], const int (&)[3], En, Ec, Un> PairA;
typedef List<void(), int (*)(int), int (&)(int), Empty, Plain, const Plain, Plain&, Base, Derived, Private, Further, Poly, PolyDerived, Abstract, Final, NoCopy, MoveOnly, NoAssign, FromInt, FromIntExplicit, ToInt, ToIntExplicit, Noisy, Amb, VBase, Base*, Derived*, const Base*, Base&, const Base&, Derived&, Base&&, Derived&&, int Base::*, int Derived::*, Private*, Amb*> PairB;
static void p1(Ctx& c) { pairs(c, PairA{}, PairA{}); } static void p2(Ctx& c) { pairs(c, PairA{}, PairB{}); } static void p3(Ctx& c) { pairs(c, PairB{}, PairA{}); } static void p4(Ctx& c) { pairs(c, PairB{}, PairB{}); }
SCENARIO_FN(scalar_scalar, p1, 1, 1);
SCENARIO_FN(scalar_class, p2, 1, 1);
SCENARIO_FN(class_scalar, p3, 1, 1);
SCENARIO_FN(class_class, p4, 1, 1);

// ---- making signed and unsigned
template <class T> static void signs(Ctx& c)
{
    TO(make_signed); c.state(tname<T>());
    if constexpr(!std::is_enum<T>::value && std::is_same<T, std::remove_cv_t<T>>::value && !std::is_same<T, wchar_t>::value && !std::is_same<T, char16_t>::value && !std::is_same<T, char32_t>::value && !std::is_same<T, char>::value)
    {
        typedef typename estd::make_unsigned<T>::type G; CHECK(std::is_integral<G>::value && std::is_unsigned<G>::value && sizeof(G) == sizeof(T), "make_unsigned: of [%s] is [%s]", tname<T>().c_str(), tname<G>().c_str());
        if(!std::is_same<T, long long>::value && !std::is_same<T, unsigned long long>::value) TO(make_unsigned);
    }
}
template <class... T> static void each_sign(Ctx& c, List<T...>) { int k = c.pick((int)sizeof...(T)), i = 0; (void)std::initializer_list<int>{(i++ == k ? (signs<T>(c), 0) : 0)...}; }
SCENARIO(make_signed_unsigned, 1, 1) { each_sign(c, List<signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, char, const int, volatile unsigned, const volatile long, const unsigned char, wchar_t, char16_t, char32_t, En, Ec, El, const Ec>{}); }

// ---- all and any, over every list of up to five answers
template <int N, int M> struct Bits { template <class S> struct Go; template <size_t... I> struct Go<std::index_sequence<I...>> {
    static constexpr bool all = estd::conjunction<std::bool_constant<bool(M >> I & 1)>...>::value, any = estd::disjunction<std::bool_constant<bool(M >> I & 1)>...>::value; }; 
    static constexpr bool all = Go<std::make_index_sequence<N>>::all, any = Go<std::make_index_sequence<N>>::any; };
template <int N, size_t... M> static void logic_(Ctx& c, std::index_sequence<M...>)
{
    const bool all[] = {Bits<N, (int)M>::all...}, any[] = {Bits<N, (int)M>::any...}; int k = c.pick((int)sizeof...(M));
    CHECK(all[k] == (k == (1 << N) - 1), "conjunction: of %d answers, bits %d", N, k); CHECK(any[k] == (k != 0), "disjunction: of %d answers, bits %d", N, k); c.observe(N * 100 + k);
}
SCENARIO(logic, 1, 1) { switch(c.pick(6)) { case 0: logic_<0>(c, std::make_index_sequence<1>{}); break; case 1: logic_<1>(c, std::make_index_sequence<2>{}); break; case 2: logic_<2>(c, std::make_index_sequence<4>{}); break; case 3: logic_<3>(c, std::make_index_sequence<8>{}); break; case 4: logic_<4>(c, std::make_index_sequence<16>{}); break; default: logic_<5>(c, std::make_index_sequence<32>{}); } }

// ---- what calling gives
template <class, class F, class... A> struct HasR : std::false_type {}; template <class F, class... A> struct HasR<std::void_t<typename estd::invoke_result<F, A...>::type>, F, A...> : std::true_type {};
template <class F, class... A> static void result(Ctx& c, const char* what)
{
    constexpr bool has = HasR<void, F, A...>::value; CHECK(has == (std::is_invocable<F, A...>::value), "invoke_result: %s is %scallable", what, has ? "" : "not ");
    if constexpr(has && std::is_invocable<F, A...>::value) CHECK((std::is_same<typename estd::invoke_result<F, A...>::type, typename std::invoke_result<F, A...>::type>::value), "invoke_result: %s gives [%s]", what, tname<typename estd::invoke_result<F, A...>::type>().c_str());
    c.state(what);
}
#define RES(...) result<__VA_ARGS__>(c, #__VA_ARGS__)
SCENARIO(calling, 1, 1)
{
    typedef int Fn(int); typedef const char& Ref(); typedef int (Base::*Mf)(int) const; typedef int (Base::*Mn)(); typedef int Base::*Mo;
    RES(Fn, int); RES(Fn*, char); RES(Fn&, short); RES(Fn, void*); RES(Fn); RES(Fn, int, int); RES(Ref); RES(Ref*); RES(int, int); RES(Call, int); RES(Call&, int); RES(const Call&, int); RES(const Call, Base&, char); RES(Call, Derived&, char); RES(Call, Base, char);
    RES(Mf, Base, int); RES(Mf, const Base&, int); RES(Mf, Derived&, char); RES(Mf, Base*, int); RES(Mf, const Derived*, int); RES(Mf, Plain, int); RES(Mf, Base&); RES(Mn, Base&); RES(Mn, const Base&); RES(Mn, Base*); RES(Mn, const Base*); RES(Mn, Derived&&); RES(Mn, std::unique_ptr<Base>);
    RES(Mo, Base&); RES(Mo, const Base&); RES(Mo, Base); RES(Mo, Base*); RES(Mo, const Derived*); RES(Mo, Plain&); RES(Mo); RES(Mo, std::unique_ptr<Derived>);
}
