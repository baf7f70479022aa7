// Property C39: lists of types and values are picked, filtered, mapped and visited in order.
// MODE: nosan
// FLAGS: -O0
#include <estd/string.h>
#include <estd/internal/variadic.h>
#include <estd/functional.h>
#include <estd/variant.h>
#include <estd/tuple.h>
#include <type_traits>
#include <utility>
#include "mc.h"
using namespace mc;
namespace v = estd::variadic; namespace vi = estd::internal;

// ---- a small alphabet of types; every list of up to four (five) of them is one case
struct Heavy { Heavy(); Heavy(const char*); Heavy(const Heavy&); ~Heavy(); char big[24]; };
template <class T> constexpr int id = -1;
template <> constexpr int id<char> = 0; template <> constexpr int id<double> = 1; template <> constexpr int id<Heavy> = 2; template <> constexpr int id<const char*> = 3;
template <> constexpr int id<char&> = 10; template <> constexpr int id<double&> = 11; template <> constexpr int id<Heavy&> = 12; template <> constexpr int id<const char*&> = 13;
template <int I> struct Letter; template <> struct Letter<0> { typedef char type; }; template <> struct Letter<1> { typedef double type; }; template <> struct Letter<2> { typedef Heavy type; }; template <> struct Letter<3> { typedef const char* type; };
constexpr int power(int b, int e) { return e ? b * power(b, e - 1) : 1; }
template <int Code, class S> struct Spell; template <int Code, int... I> struct Spell<Code, std::integer_sequence<int, I...>> { typedef v::types<typename Letter<Code / power(4, I) % 4>::type...> type; };
typedef std::vector<int> Ids;
static std::string show_ids(const Ids& x) { std::string s = "["; for(int i : x) s += std::to_string(i) + " "; return s + "]"; }
template <class... T> static Ids ids(v::types<T...>) { return {id<T>...}; }
template <class... T> static Ids picks(v::types<T...>) { return {(int)(T::index * 100 + id<typename T::type>)...}; }
template <size_t... I> static Ids nums(estd::index_sequence<I...>) { return {(int)I...}; }

// what is selected by each of the library's questions, as a predicate over ids
struct ToRef { template <class T, size_t> using evaluator = v::projected_result<T&>; };                                            // maps every one
struct SomeToRef { template <class T, size_t I> using evaluator = v::projected_result<T&, (id<T> != 1)>; };                        // maps and filters
struct EvenPlaces { template <class, size_t I> using evaluator = estd::bool_constant<I % 2 == 0>; };
template <class Sel, class Pred> static void filtered(Ctx& c, const char* what, const Ids& all, Pred p, int map = 0)
{
    Ids types, sel, idx, proj; for(size_t i = 0; i < all.size(); i++) if(p(all[i], (int)i)) { types.push_back(all[i]); proj.push_back(all[i] + map); sel.push_back((int)i * 100 + all[i] + map); idx.push_back((int)i); }
    auto is = [&](const char* part, const Ids& got, const Ids& want) { CHECK(got == want, "%s: %s of %s are %s, expected %s", part, what, show_ids(all).c_str(), show_ids(got).c_str(), show_ids(want).c_str()); };
    is("types", ids(typename Sel::types{}), types); is("projected", ids(typename Sel::projected{}), proj); is("selected", picks(typename Sel::selected{}), sel); is("indices", nums(typename Sel::indices{}), idx);
    CHECK(Sel::selected::size() == sel.size() && Sel::selected::empty() == sel.empty(), "size: %s of %s are %zu, expected %zu", what, show_ids(all).c_str(), Sel::selected::size(), sel.size());
}
template <class Sel> static std::enable_if_t<(Sel::selected::size() > 0)> first_and_last(Ctx& c, const char* what, const Ids& want)
{
    typedef typename Sel::selected S; size_t n = want.size();
    CHECK((int)S::first::index == want[0] && (int)S::last::index == want[n - 1], "ends: %s are %zu and %zu, expected %d and %d", what, S::first::index, S::last::index, want[0], want[n - 1]);
}
template <class Sel> static std::enable_if_t<(Sel::selected::size() == 0)> first_and_last(Ctx& c, const char*, const Ids& want) { CHECK(want.empty(), "ends: none of %zu", want.size()); }
template <class Sel> static std::enable_if_t<(Sel::selected::size() == 1)> only(Ctx& c, int want) { CHECK((int)Sel::selected::single::index == want, "only one: is %zu, expected %d", Sel::selected::single::index, want); }
template <class Sel> static std::enable_if_t<(Sel::selected::size() != 1)> only(Ctx&, int) {}

// visiting: the explorer decides where the visitor stops
struct Stop { const Ids& want; int at; Ids& seen; int token;
    template <size_t I, class T> bool operator()(v::type<I, T>, int& passed, const char*&& text) const { Ctx& c = *current; CHECK(passed == token && !strcmp(text, "text"), "passed on: %d", passed); seen.push_back((int)I * 100 + id<T>); ++passed; --passed; return (int)I == at; } };
template <class S> static void ask(Ctx& c) {}
template <class... T> static void list(Ctx& c, v::types<T...> L)
{
    typedef decltype(L) Ls; constexpr size_t n = sizeof...(T); const Ids all = ids(L);
    auto here = [&](auto p) { Ids x; for(size_t i = 0; i < n; i++) if(p(all[i])) x.push_back((int)i); return x; };
    CHECK(Ls::size() == n && Ls::empty() == (n == 0), "size: %zu, expected %zu", Ls::size(), n);
    { Ids w = all; w.insert(w.begin(), 10); CHECK(ids(typename Ls::template prepend<char&>{}) == w, "prepend: to %s", show_ids(all).c_str()); w = all; w.push_back(11); CHECK(ids(typename Ls::template append<double&>{}) == w, "append: to %s", show_ids(all).c_str()); }
#define SEL(eval, ...) do { typedef v::v2::selector<__VA_ARGS__, T...> A; filtered<A>(c, #__VA_ARGS__, all, [](int t, int i) { return eval; }); Ids w; for(size_t k = 0; k < n; k++) { int t = all[k], i = (int)k; if(eval) w.push_back(i); } first_and_last<A>(c, #__VA_ARGS__, w); only<A>(c, w.size() == 1 ? w[0] : -1); \
        CHECK(ids(typename Ls::template where<__VA_ARGS__>{}) == ids(typename A::types{}), "where: %s", #__VA_ARGS__); CHECK((std::is_same<typename v::type_visitor<T...>::template select<__VA_ARGS__>, A>::value && std::is_same<v::v1::selector<__VA_ARGS__, T...>, typename A::selected>::value && std::is_same<v::v1::projector<__VA_ARGS__, T...>, typename A::projected>::value), "names: %s", #__VA_ARGS__); } while(0)
    SEL(t == 0, vi::is_same_selector<char>); SEL(t == 1, vi::is_same_selector<double>); SEL(t == 2, vi::is_same_selector<Heavy>); SEL(t == 3, vi::is_same_selector<const char*>); SEL(false && t && i, vi::is_same_selector<int>);
    SEL(t < 2, vi::converting_selector<int>); SEL(t == 2 || t == 3, vi::converting_selector<char*>); SEL(t == 2 || t == 3, vi::constructible_selector<const char*>); SEL(t < 4, vi::constructible_selector<>); SEL(t < 2, vi::constructible_selector<float>); SEL(t < 4, vi::is_copy_constructible_selector); SEL(false && i, vi::constructible_selector<int, int>);
    SEL(i == 0, vi::index_selector<0>); SEL(i == 1, vi::index_selector<1>); SEL(i == 2, vi::index_selector<2>); SEL(i == 7, vi::index_selector<7>); SEL(i % 2 == 0, EvenPlaces);
    filtered<v::v2::selector<ToRef, T...>>(c, "references", all, [](int, int) { return true; }, 10); filtered<v::v2::selector<SomeToRef, T...>>(c, "some references", all, [](int t, int) { return t != 1; }, 10);
    if constexpr(n > 0) { CHECK((v::v2::selector<vi::is_same_selector<char>, T...>::all == (here([](int t) { return t == 0; }).size() == n)), "all: of %s", show_ids(all).c_str()); CHECK((v::v2::selector<ToRef, T...>::all), "all: mapped"); }
    // every answer at once
    CHECK((vi::contains_type<char, T...>::value == !here([](int t) { return t == 0; }).empty() && vi::contains_type<Heavy, T...>::value == !here([](int t) { return t == 2; }).empty() && !vi::contains_type<int, T...>::value), "contains: %s", show_ids(all).c_str());
    CHECK((vi::are_same<char, T...>::value == (here([](int t) { return t == 0; }).size() == n)), "all the same: %s", show_ids(all).c_str());
    CHECK((vi::are_trivial<T...>::value == here([](int t) { return t == 2; }).empty()), "trivial: %s", show_ids(all).c_str());
    CHECK((estd::variadic::size<T...>::value == n), "size: of %s", show_ids(all).c_str());
    if constexpr(n > 0)
    {
        size_t big = 0; const size_t sizes[] = {sizeof(T)...}; for(size_t i = 1; i < n; i++) if(sizes[i] > sizes[big]) big = i;
        CHECK((id<typename vi::largest_type<T...>::type> == all[big]), "largest: of %s", show_ids(all).c_str());
        CHECK(id<typename Ls::first> == all[0] && id<typename Ls::last> == all[n - 1], "ends: of %s", show_ids(all).c_str());
        if constexpr(n == 1) CHECK(id<typename Ls::single> == all[0], "single: of %s", show_ids(all).c_str());
        { typedef std::tuple_element_t<n - 1, std::tuple<T...>> Last; auto w = here([](int t) { return t == id<Last>; }); CHECK((vi::first_index_of_type<Last, T...>::matches == w.size() && (int)vi::first_index_of_type<Last, T...>::index == w[0]), "find: last of %s", show_ids(all).c_str()); }
        { typedef std::tuple_element_t<n / 2, std::tuple<T...>> Mid; auto w = here([](int t) { return t == id<Mid>; }); CHECK((vi::first_index_of_type<Mid, T...>::matches == w.size() && (int)vi::first_index_of_type<Mid, T...>::index == w[0]), "find: middle of %s", show_ids(all).c_str()); if(w.size() == 1) c.observe("single"); }
    }
    // visiting
    int at = c.pick((int)n + 1), token = 42; Ids seen, want; const char* text = "text"; bool back = c.flip();
    int r = back ? v::type_visitor<T...>::visit_reverse(Stop{all, at, seen, token}, token, (const char*&&)text) : v::type_visitor<T...>::visit(Stop{all, at, seen, token}, token, (const char*&&)text);
    if(back) { for(int i = (int)n - 1; i >= 0; i--) { want.push_back(i * 100 + all[i]); if(i == at) break; } } else for(int i = 0; i < (int)n; i++) { want.push_back(i * 100 + all[i]); if(i == at) break; }
    CHECK(seen == want, "visited: %s of %s up to %d, expected %s", show_ids(seen).c_str(), show_ids(all).c_str(), at, show_ids(want).c_str());
    CHECK(r == (at < (int)n ? at : -1), "visit: gives %d, stopped at %d of %zu", r, at, n);
    c.state(show_ids(all));
}
// K letters are used, every step of `step` in the alphabet
constexpr int respell(int code, int n, int k, int step) { return n ? code % k * step + 4 * respell(code / k, n - 1, k, step) : 0; }
template <int N, int K = 4, int Step = 1> struct Lists
{
    template <int Code> static void one(Ctx& c) { list(c, typename Spell<respell(Code, N, K, Step), std::make_integer_sequence<int, N>>::type{}); }
    template <int... C> static void some(Ctx& c, int k, std::integer_sequence<int, C...>) { typedef void (*F)(Ctx&); static const F f[] = {&one<C>...}; f[k](c); }
    static void run(Ctx& c) { some(c, c.pick(power(K, N)), std::make_integer_sequence<int, power(K, N)>{}); }
};
SCENARIO_FN(types_none, Lists<0>::run, 1, 1);
SCENARIO_FN(types_one, Lists<1>::run, 1, 1);
SCENARIO_FN(types_two, Lists<2>::run, 1, 1);
SCENARIO_FN(types_three, Lists<3>::run, 1, 1);
static void four(Ctx& c) { Lists<4, 2, 2>::run(c); }
SCENARIO_FN(types_four, four, 1, 1);

