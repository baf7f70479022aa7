ID="C20-width-survives"; PROP="C20"
NEEDS="writing a number longer than the width asked for, then another output of fewer characters than that width"
BREAKS="the width is only used up when it padded something, so a later output is padded"
EDITS=[("internal/ostream/integer.h","""    const streamsize pad = out.width();
    out.width(0);""","""    const streamsize pad = out.width();
    if(pad > (streamsize)sz) out.width(0);""")]
DEMO=r"""
#include <estd/sstream.h>
#include <estd/ostream.h>
#include <estd/iomanip.h>
#include <cstring>
int main()
{
    estd::layer1::ostringstream<64> o;
    o << estd::setw(3) << 1234 << 5;
    auto& s = o.rdbuf()->str();
    return s.size() == 5 && memcmp(s.clock(), "12345", 5) == 0 ? 0 : 1;
}
"""
