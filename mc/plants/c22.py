ID="C22-span-read-overruns"; PROP="C22"
NEEDS="asking a span stream buffer for more characters than it has left, and asking again"
BREAKS="the position moves past the end, so what is available wraps around and later reads leave the span"
EDITS=[("internal/impl/streambuf/span.h","        this->gbump(c);","        this->gbump(count);")]
DEMO=r"""
#include <estd/istream.h>
#include <estd/span.h>
int main()
{
    char text[4] = {'a','b','c','d'}; char t[16];
    estd::detail::ispanbuf b(estd::span<char>(text, 4));
    if(b.sgetn(t, 3) != 3) return 2;
    if(b.sgetn(t, 3) != 1) return 3;
    return b.sgetn(t, 3) == 0 && b.in_avail() <= 0 ? 0 : 1;
}
"""
