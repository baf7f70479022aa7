ID="C41-ff-looks-like-the-end"; PROP="C41"
NEEDS="comparing what a post-increment left behind with the end, at a character whose value is -1"
BREAKS="the character is taken for the end of the stream"
EDITS=[("internal/istreambuf_iterator.h","        bool end() const { return ch == traits_type::eof(); }\n\n        proxy(","        bool end() const { return traits_type::to_char_type(ch) == traits_type::to_char_type(traits_type::eof()); }\n\n        proxy(")]
DEMO=r"""
#include <cstdint>
#include <estd/string.h>
#include <estd/sstream.h>
#include <estd/istream.h>
#include <estd/iterator.h>
int main()
{
    estd::layer1::stringbuf<16> b; b.sputn("a\xff" "b", 3);
    typedef estd::istreambuf_iterator<estd::layer1::stringbuf<16>> It;
    It it(b), end;
    auto p = it++; if(p.equal(end)) return 1;
    auto q = it++; if(*q != '\xff' || q.equal(end)) return 1;
    auto r = it++; if(r.equal(end)) return 1;
    return 0;
}
"""
