ID="C18-overflow-by-comparison"; PROP="C18"
NEEDS="a number too large for a one or two byte type whose wrapped value is still larger than the prefix read before it"
BREAKS="overflow is judged by whether the accumulated value shrank, so some numbers that do not fit are accepted wrapped"
EDITS=[("internal/raise_and_add.h","""    if (__builtin_mul_overflow(value, base, &value)
        || __builtin_add_overflow(value, addend, &value))
        return false;
    return true;
}


/*""","""    const T before = value;
    const bool wrapped = __builtin_mul_overflow(value, base, &value);
    if (__builtin_add_overflow(value, addend, &value) || (wrapped && value <= before))
        return false;
    return true;
}


/*""")]
DEMO=r"""
#include <estd/charconv.h>
#include <cstring>
int main()
{
    for(int i = 0; i < 2000; i++)
    {
        char t[8]; int n = 0, k = i; char r[8]; do { r[n++] = '0' + k % 10; k /= 10; } while(k); for(int j = 0; j < n; j++) t[j] = r[n - 1 - j]; t[n] = 0;
        unsigned char v = 99;
        auto e = estd::from_chars(t, t + n, v);
        if(i < 256 ? (!(e.ec == 0) || v != i) : e.ec == 0) return 1;
    }
    return 0;
}
"""
