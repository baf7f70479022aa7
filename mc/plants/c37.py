ID="C37-all-become-nothing"; PROP="C37"
NEEDS="asking whether a type other than void can be converted to void"
BREAKS="everything is said to convert to void, where only void does"
EDITS=[("internal/type_traits/is_convertible.h","    (is_void<From>::value && is_void<To>::value)","    is_void<To>::value")]
DEMO=r"""
#include <type_traits>
#include <estd/type_traits.h>
template <class A, class B> static constexpr bool same() { return estd::is_convertible<A, B>::value == std::is_convertible<A, B>::value; }
struct S {};
int main()
{
    return same<int, void>() && same<S, void>() && same<void, void>() && same<const void, void>() && same<void, int>() && same<int, long>() && same<S, int>() && same<int*, const void>() ? 0 : 1;
}
"""
