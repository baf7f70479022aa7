ID="C19-letters-only-for-hex"; PROP="C19"
NEEDS="rendering a number in a base between eleven and fifteen which has a digit beyond nine"
BREAKS="the digit comes out as the character that happens to follow '9'"
EDITS=[("charconv.h","""    to_chars_opt(char* first, char* last, Int value, const int base = 10)
{
    if(base > 10)""","""    to_chars_opt(char* first, char* last, Int value, const int base = 10)
{
    if(base >= 16)""")]
DEMO=r"""
#include <cstring>
#include <cstdint>
#include <cctype>
#include <cstdlib>
#include <estd/string.h>
#include <estd/charconv.h>
int main()
{
    for(int base = 2; base <= 36; base++)
        for(int v = -300; v <= 300; v += 7)
        {
            char b[32]; memset(b, 0, sizeof b);
            estd::to_chars_result r = estd::to_chars(b, b + 20, v, base);
            for(char* p = b; p != r.ptr; p++) if(!isalnum((unsigned char)*p) && *p != '-') return 1;
            *r.ptr = 0;
            if(strtol(b, nullptr, base) != v) return 1;
        }
    return 0;
}
"""
