ID="C03-suffix-before-the-view"; PROP="C03"
NEEDS="asking a view whether it ends with a longer text, with matching characters in front of the view's own"
BREAKS="ends_with looks at the characters before the view began and finds the suffix there"
EDITS=[("internal/container/ends_with.h","    if(rhs_count > lhs_count) return false;\n\n    const int start","    const int start")]
DEMO=r"""
#include <estd/string.h>
#include <estd/string_view.h>
int main()
{
    const char* text = "xxabc";
    estd::string_view inner(text + 2, 3), longer("xabc", 4), own("bc", 2), other("xc", 2);
    return !inner.ends_with(longer) && inner.ends_with(own) && !inner.ends_with(other) ? 0 : 1;
}
"""
