ID="C34-graph-misses-digits"; PROP="C34"
NEEDS="asking for a decimal digit together with punctuation (as the printable category does)"
BREAKS="digits do not belong to any category asked for along with punctuation"
EDITS=[("internal/locale/ctype.h","""        else if(m & digit)
        {""","""        else if((m & digit) && !(m & punct))
        {""")]
DEMO=r"""
#include <estd/locale.h>
#include <estd/cctype.h>
#include <estd/internal/locale/ctype.h>
#include <cctype>
int main()
{
    typedef estd::ctype<char, estd::internal::classic_locale_type> C;
    for(int c = 0; c < 128; c++)
        if(C::is(C::graph, (char)c) != !!std::isgraph(c)) return 1;
    return 0;
}
"""
