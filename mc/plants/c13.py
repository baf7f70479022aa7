ID="C13-value-flag-first"; PROP="C13"
NEEDS="assigning a value over an error, both being objects"
BREAKS="the value is assigned to as if one were there, and the error is never destroyed"
EDITS=[("expected.h","""    expected& operator=(U&& v)
    {
        base_type::assign_value(has_value_, std::forward<U>(v));
        if(!has_value_) has_value_ = true;
        return *this;""","""    expected& operator=(U&& v)
    {
        const bool replacing = has_value_ || is_assignable<T&, U>::value;
        base_type::assign_value(replacing, std::forward<U>(v));
        if(!has_value_) has_value_ = true;
        return *this;""")]
DEMO=r"""
#include <estd/expected.h>
static int live = 0;
struct E { int v; E(int v) : v(v) { live++; } E(const E& o) : v(o.v) { live++; } E& operator=(const E&) = default; ~E() { live--; } };
int main()
{
    {
        estd::expected<int, E> x(estd::unexpect_t{}, 5);
        x = 3;
        if(!x.has_value() || x.value() != 3) return 2;
    }
    return live == 0 ? 0 : 1;
}
"""
