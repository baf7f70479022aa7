ID="C02-set-read-to-its-terminator"; PROP="C02"
NEEDS="searching for a set given as a view that does not end at a terminator"
BREAKS="the set is taken up to the next terminator instead of the view's length"
EDITS=[("internal/string.h","        size_type r = find_last_of(data, pos, s.size());","        size_type r = find_last_of(data, pos);")]
DEMO=r"""
#include <estd/string.h>
#include <estd/string_view.h>
int main()
{
    estd::layer1::string<32> s = "abcd";
    estd::string_view all("bd");
    estd::string_view set(all.data(), 1);
    return s.find_last_of(set) == 1 ? 0 : 1;
}
"""
