ID="C11-compact-from-empty"; PROP="C11"
NEEDS="making a compact optional (reserved value) from an empty compact optional whose reserved value is another one"
BREAKS="the new optional takes the other's reserved value for a value"
EDITS=[("internal/optional.h","            copy_from.has_value() ? copy_from.value() : null_value_)","            *copy_from)")]
DEMO=r"""
#include <estd/optional.h>
int main()
{
    estd::layer1::optional<int, 0> none;
    estd::layer1::optional<int, 0> five(5);
    estd::layer1::optional<int, -1> a(none), b(five);
    if(!b.has_value() || b.value() != 5) return 2;
    return a.has_value() ? 1 : 0;
}
"""
