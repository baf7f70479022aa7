ID="C28-last-smallest"; PROP="C28"
NEEDS="a range whose smallest value occurs more than once"
BREAKS="the position returned is the last of the smallest elements and not the first"
EDITS=[("algorithm.h","        if (comp(*first, *smallest)) {\n            smallest = first;","        if (!comp(*smallest, *first)) {\n            smallest = first;")]
DEMO=r"""
#include <cassert>
#include <estd/algorithm.h>
static bool lt(int a, int b) { return a < b; }
int main() { int a[5] = {3,1,2,1,1}; return estd::min_element(a, a + 5, lt) == a + 1 ? 0 : 1; }
"""
