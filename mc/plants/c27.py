ID="C27-no-sign-in-octal"; PROP="C27"
NEEDS="the text length promised for a signed type in base eight, for its smallest values"
BREAKS="no room is reserved for the sign there, so the lowest value does not fit"
EDITS=[("internal/limits/integer.h","                                    (is_signed ? 1 : 0)> {};","                                    (is_signed && base != 8 ? 1 : 0)> {};")]
DEMO=r"""
#include <cstdint>
#include <climits>
#include <estd/limits.h>
template <class T, unsigned B> static bool fits()
{
    unsigned n = 1; T v = estd::numeric_limits<T>::min();           // its sign ...
    if(v == 0) { n = 0; v = estd::numeric_limits<T>::max(); }
    for(; v; v = (T)(v / (T)B)) ++n;                                // ... and its digits
    return estd::numeric_limits<T>::template length<B>::value >= n;
}
int main()
{
    return fits<int8_t, 16>() && fits<int32_t, 16>() && fits<int64_t, 16>()
        && fits<int8_t, 8>() && fits<int32_t, 8>() && fits<int64_t, 10>() && fits<uint32_t, 16>() ? 0 : 1;
}
"""
