ID="C36-swap-skips-equals"; PROP="C36"
NEEDS="elements that compare equal although they differ (here, by identity)"
BREAKS="swapping pairs leaves first elements alone that compare equal"
EDITS=[("utility.h","        estd::swap(first, other.first);\n","        if(!(first == other.first)) estd::swap(first, other.first);\n")]
DEMO=r"""
#include <estd/utility.h>
struct Named { int key, tag; };
inline bool operator==(const Named& a, const Named& b) { return a.key == b.key; }
int main()
{
    estd::pair<Named, int> a(Named{1, 10}, 1), b(Named{1, 20}, 2);
    a.swap(b);
    return a.first.tag == 20 && b.first.tag == 10 && a.second == 2 && b.second == 1 ? 0 : 1;
}
"""
