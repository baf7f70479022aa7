// Property C39: lists of types and values are picked, filtered, mapped and visited in order.
// MODE: nosan
// FLAGS: -O0
#include <estd/string.h>
#include <estd/internal/variadic.h>
#include <estd/functional.h>
#include <estd/variant.h>
#include <estd/tuple.h>
#include <type_traits>
#include <utility>
#include "mc.h"
using namespace mc;
namespace v = estd::variadic; namespace vi = estd::internal;

struct Heavy { Heavy(); Heavy(const char*); Heavy(const Heavy&); ~Heavy(); char big[24]; };
constexpr int power(int b, int e) { return e ? b * power(b, e - 1) : 1; }
typedef std::vector<int> Ids;
static std::string show_ids(const Ids& x) { std::string s = "["; for(int i : x) s += std::to_string(i) + " "; return s + "]"; }
template <size_t... I> static Ids nums(estd::index_sequence<I...>) { return {(int)I...}; }

// ---- every list of up to four values
template <class T> struct Val; template <> struct Val<int> { static constexpr int at[] = {-1, 0, 300}; }; template <> struct Val<size_t> { static constexpr size_t at[] = {0, 1, size_t(-1)}; }; template <> struct Val<bool> { static constexpr bool at[] = {true, false, true}; };
enum class Way : unsigned char { left, right, up }; template <> struct Val<Way> { static constexpr Way at[] = {Way::left, Way::up, Way::right}; }; template <> struct Val<char> { static constexpr char at[] = {'a', '\0', '\xff'}; };
template <class T, T... X> static std::vector<T> plain(v::values<T, X...>) { return {X...}; }
template <class T> struct StopAt { int at; std::vector<T>& seen; template <size_t I, T x> bool operator()(v::value<I, T, x>, int& passed) const { Ctx& c = *current; CHECK(passed == 5, "passed on: %d", passed); seen.push_back(x); return (int)I == at; } };
template <class T, T... X> static void values(Ctx& c, v::values<T, X...> L)
{
    typedef decltype(L) Ls; constexpr size_t n = sizeof...(X); const std::vector<T> all = {X...}; constexpr T A = Val<T>::at[0], B = Val<T>::at[1], C = Val<T>::at[2];
    CHECK(Ls::size() == n, "size: %zu, expected %zu", Ls::size(), n);
    { auto w = all; w.insert(w.begin(), B); CHECK(plain(typename Ls::template prepend<B>{}) == w, "prepend: to %zu", n); w = all; w.push_back(C); CHECK(plain(typename Ls::template append<C>{}) == w, "append: to %zu", n); }
    auto count = [&](T x) { size_t k = 0; for(T y : all) k += x == y; return k; };
    auto where = [&](const char* what, const std::vector<T>& got, std::vector<T> of) { std::vector<T> w; for(T y : all) { bool in = false; for(T o : of) in |= o == y; if(in) w.push_back(y); } CHECK(got == w, "where: %s gives %zu of %zu, expected %zu", what, got.size(), n, w.size()); };
    where("one", plain(typename Ls::template where<vi::is_same_value_selector<T, A>>{}), {A}); where("other", plain(typename Ls::template where<vi::is_same_value_selector<T, B>>{}), {B}); where("last", plain(typename Ls::template where<vi::is_same_value_selector<T, C>>{}), {C});
    where("none of", plain(typename Ls::template where<vi::is_same_values_selector<v::values<T>>>{}), {}); where("either of", plain(typename Ls::template where<vi::is_same_values_selector<v::values<T, A, B>>>{}), {A, B}); where("repeated", plain(typename Ls::template where<vi::is_same_values_selector<v::values<T, B, B>>>{}), {B});
    CHECK(Ls::template contains<A>() == (count(A) > 0), "contains: the first letter is there %zu times, says %d", count(A), (int)Ls::template contains<A>()); CHECK(Ls::template contains<B>() == (count(B) > 0), "contains: the second letter is there %zu times, says %d", count(B), (int)Ls::template contains<B>()); CHECK(Ls::template contains<C>() == (count(C) > 0), "contains: the third letter is there %zu times, says %d", count(C), (int)Ls::template contains<C>());
    if constexpr(n > 0) { CHECK(Ls::first() == all[0], "first: of %zu", n); CHECK((Ls::template get<0>::value == all[0] && Ls::template get<n - 1>::value == all[n - 1] && Ls::template get<n / 2>::value == all[n / 2] && vi::get_index<n - 1, Ls>::value == all[n - 1]), "get: of %zu", n); }
    if constexpr(n == 1) CHECK(Ls::single() == all[0], "single: value");
    if constexpr(n > 0) {
    int at = c.pick((int)n + 1), token = 5; std::vector<T> seen; int r = Ls::visit(StopAt<T>{at, seen}, token); std::vector<T> want(all.begin(), all.begin() + std::min<size_t>(n, at + 1));
    CHECK(seen == want && r == (at < (int)n ? at : -1), "visit: gives %d after %zu, stopped at %d of %zu", r, seen.size(), at, n); }
    std::string key; for(T y : all) key += std::to_string((long long)y) + ","; c.state(key);
}
template <int Code, class T, class S> struct SpellV; template <int Code, class T, int... I> struct SpellV<Code, T, std::integer_sequence<int, I...>> { typedef v::values<T, Val<T>::at[Code / power(3, I) % 3]...> type; };
template <class T, int N> struct ValueLists
{
    template <int Code> static void one(Ctx& c) { values(c, typename SpellV<Code, T, std::make_integer_sequence<int, N>>::type{}); }
    template <int... C> static void some(Ctx& c, int k, std::integer_sequence<int, C...>) { typedef void (*F)(Ctx&); static const F f[] = {&one<C>...}; f[k](c); }
    static void run(Ctx& c) { some(c, c.pick(power(3, N)), std::make_integer_sequence<int, power(3, N)>{}); }
};
template <class T> static void all_values(Ctx& c) { switch(c.pick(5)) { case 0: return ValueLists<T, 0>::run(c); case 1: return ValueLists<T, 1>::run(c); case 2: return ValueLists<T, 2>::run(c); case 3: return ValueLists<T, 3>::run(c); default: return ValueLists<T, 4>::run(c); } }
SCENARIO_FN(values_int, all_values<int>, 1, 1);
SCENARIO_FN(values_size, all_values<size_t>, 1, 1);
SCENARIO_FN(values_bool, all_values<bool>, 1, 1);
SCENARIO_FN(values_char, all_values<char>, 1, 1);
SCENARIO_FN(values_enum, all_values<Way>, 1, 1);

// ---- counting lists and reversal
template <size_t N> static void counted(Ctx& c)
{
    Ids want; for(size_t i = 0; i < N; i++) want.push_back((int)i);
    CHECK(nums(estd::make_index_sequence<N>{}) == want, "counting: to %zu gives %s", N, show_ids(nums(estd::make_index_sequence<N>{})).c_str()); std::vector<int> s = plain(estd::make_integer_sequence<int, (int)N>{}); CHECK(s == want, "counting: ints to %zu", N);
    c.observe((int)N);
}
template <size_t... N> static void count_to(Ctx& c, std::index_sequence<N...>) { typedef void (*F)(Ctx&); static const F f[] = {&counted<N>...}; f[c.pick((int)sizeof...(N))](c); }
SCENARIO(counting, 1, 1) { count_to(c, std::make_index_sequence<65>{}); }

// ---- long lists, of values and of types, each visited up to every place
template <size_t N> struct Nth { char pad[N + 1]; };
struct StopLong { int at; Ids& seen; template <size_t I, size_t x> bool operator()(v::value<I, size_t, x>, int& passed) const { passed++; seen.push_back((int)(I * 1000 + x)); return (int)I == at; } template <size_t I, size_t N> bool operator()(v::type<I, Nth<N>>, int& passed) const { passed++; seen.push_back((int)(I * 1000 + N)); return (int)I == at; } };
struct Odd { template <class T, size_t I> using evaluator = estd::bool_constant<I % 2 == 1 && sizeof(T) != 10>; };
struct OddV { template <size_t x, size_t I> using evaluator = estd::bool_constant<I % 2 == 1 && x != 27>; };
template <class... T> static Ids type_nums(v::types<T...>) { return {(int)sizeof(T) - 1 ...}; }
template <size_t... I> static void visit_long(Ctx& c, std::index_sequence<I...>)
{
    constexpr int n = sizeof...(I); typedef v::values<size_t, I * 3 ...> V; typedef v::types<Nth<I>...> T; int at = c.pick(n + 1), way = c.pick(3), passed = 0; Ids seen, want;
    int r = way == 0 ? V::visit(StopLong{at, seen}, passed) : way == 1 ? T::visitor::visit(StopLong{at, seen}, passed) : T::visitor::visit_reverse(StopLong{at, seen}, passed);
    if(way == 2) { for(int i = n - 1; i >= 0; i--) { want.push_back(i * 1001); if(i == at) break; } } else for(int i = 0; i < n && i <= at; i++) want.push_back(i * 1000 + (way ? i : i * 3));
    CHECK(seen == want && passed == (int)want.size() && r == (at < n ? at : -1), "visit: %d of %d, way %d, gives %d after %s", at, n, way, r, show_ids(seen).c_str());
    bool in[] = {V::template contains<I>()..., false}; for(int i = 0; i < n; i++) CHECK(in[i] == (i % 3 == 0), "contains: %d says %d", i, in[i]);
    size_t got[] = {V::template get<I>::value...}; for(int i = 0; i < n; i++) CHECK(got[i] == (size_t)i * 3, "get: %d is %zu", i, got[i]);
    int sizes[] = {(int)sizeof(typename T::template get<I>)...}; for(int i = 0; i < n; i++) CHECK(sizes[i] == i + 1, "get: type %d is of %d", i, sizes[i]);
    unsigned found[] = {vi::first_index_of_type<Nth<I>, Nth<I>...>::index...}; for(int i = 0; i < n; i++) CHECK(found[i] == (unsigned)i, "find: %d is at %u", i, found[i]);
    Ids ot, ov, oi; for(int i = 1; i < n; i += 2) { if(i != 9) { ot.push_back(i); oi.push_back(i); } if(i != 9) ov.push_back(i * 3); } typedef v::v2::selector<Odd, Nth<I>...> S;
    CHECK(type_nums(typename S::types{}) == ot && nums(typename S::indices{}) == oi, "where: %s", show_ids(type_nums(typename S::types{})).c_str()); std::vector<size_t> pv = plain(typename V::template where<OddV>{}); CHECK(Ids(pv.begin(), pv.end()) == ov, "where: values");
    c.observe(show_ids(seen));
}
static void long17(Ctx& c) { visit_long(c, std::make_index_sequence<17>{}); }
static void long40(Ctx& c) { visit_long(c, std::make_index_sequence<40>{}); }
SCENARIO_FN(visit_17, long17, 1, 1);
SCENARIO_FN(visit_40, long40, 1, 1);

// ---- what a callable takes and gives
template <class F, class R, class... A> static void signature(Ctx& c, const char* what, bool method)
{
    typedef estd::function_traits<F> X; CHECK(X::nargs == sizeof...(A), "arguments: %s has %zu, expected %zu", what, (size_t)X::nargs, sizeof...(A)); CHECK((std::is_same<typename X::return_type, R>::value), "result: of %s", what); CHECK(X::is_method == method && X::is_function, "kind: of %s", what);
    CHECK((std::is_same<typename X::tuple, estd::tuple<A...>>::value), "argument list: of %s", what);
    typedef std::tuple<A...> W; if constexpr(sizeof...(A) > 0) CHECK((std::is_same<typename X::template arg<0>, std::tuple_element_t<0, W>>::value && std::is_same<typename X::template arg<sizeof...(A) - 1>, std::tuple_element_t<sizeof...(A) - 1, W>>::value), "argument: of %s", what);
    c.state(what);
}
struct Obj { int m0(); void m1(int&) const; const char& m2(Heavy&&, double) const; Obj* operator()(const Obj&, char, Heavy*) const; };
SCENARIO(signatures, 1, 1)
{
    signature<int(), int>(c, "int()", false); signature<void(int), void, int>(c, "void(int)", false); signature<Heavy&(const Heavy&, char), Heavy&, const Heavy&, char>(c, "Heavy&(const Heavy&, char)", false); signature<const int(Heavy&&, char*, double, long), const int, Heavy&&, char*, double, long>(c, "four", false);
    signature<void (&)(), void>(c, "void (&)()", false); signature<char (&)(short, Heavy&), char, short, Heavy&>(c, "char (&)(short, Heavy&)", false);
    signature<estd::detail::function<int(char)>, int, char>(c, "function<int(char)>", false); signature<decltype(&Obj::m0), int>(c, "m0", true); signature<decltype(&Obj::m1), void, int&>(c, "m1", true); signature<decltype(&Obj::m2), const char&, Heavy&&, double>(c, "m2", true); signature<Obj, Obj*, const Obj&, char, Heavy*>(c, "Obj", true);
    auto l = [](int, char&) -> long { return 0; }; signature<decltype(l), long, int, char&>(c, "lambda", true); auto m = [x = 0](double) mutable { return x; }; signature<decltype(m), int, double>(c, "mutable lambda", true);
    CHECK((std::is_same<estd::function_traits<decltype(&Obj::m0)>::class_type, Obj>::value && std::is_same<estd::function_traits<decltype(&Obj::m2)>::class_type, Obj>::value && std::is_same<estd::function_traits<decltype(&Obj::m2)>::function_type, decltype(&Obj::m2)>::value && std::is_same<estd::function_traits<int(char)>::function_type, int(char)>::value), "class: of a method");
}
