ID="C01-erase-past-the-end"; PROP="C01"
NEEDS="erasing from the middle with a count that runs past the end but is smaller than the length"
BREAKS="the count is only limited when it exceeds the whole length, so more than the tail is taken away"
EDITS=[("internal/string.h","        size_type to_remove_count = estd::min(count, size_minus_index);","        size_type to_remove_count = count >= base_type::size() ? size_minus_index : count;")]
DEMO=r"""
#include <estd/string.h>
int main()
{
    estd::layer1::string<32> s = "hello!";
    s.erase(3, 5);
    return s.size() == 3 && s == "hel" ? 0 : 1;
}
"""
