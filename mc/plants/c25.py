ID="C25-greater-in-the-left-tick"; PROP="C25"
NEEDS="comparing a coarse negative duration with a finer one less than a coarse tick below it"
BREAKS="the finer one is cut towards zero to the coarser tick first, and the greater is not seen"
EDITS=[("internal/chrono/operators.hpp","""    return CT(lhs).count() > CT(rhs).count();""","""    return lhs.count() > estd::chrono::duration<Rep1, Period1>(rhs).count();""")]
DEMO=r"""
#include <cstdint>
#include <estd/chrono.h>
using namespace estd::chrono;
int main()
{
    return seconds(-1) > milliseconds(-1500) && minutes(-1) > seconds(-61) && !(minutes(-1) <= seconds(-61)) && seconds(2) > milliseconds(1999) && !(seconds(1) > milliseconds(1500)) ? 0 : 1;
}
"""
