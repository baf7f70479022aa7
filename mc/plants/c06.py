ID="C06-kary-last-parent"; PROP="C06"
NEEDS="building a heap of arity above two whose last parent's only child is greater than it"
BREAKS="heap construction skips the last parent for arities above two, so the result need not be a heap"
EDITS=[("internal/algorithm/heap.h","int last_nonleaf_idx = (size() - 1) / k;","int last_nonleaf_idx = size() > (size_t)k ? (size() - k) / k : 0;")]
DEMO=r"""
#include <estd/algorithm.h>
#include <estd/internal/heap.h>
#include <estd/queue.h>
int main()
{
    int a[5] = {9, 1, 8, 7, 2};      // arity 3: element 4 is the child of element 1
    estd::make_heap(a, a + 5, estd::less<int>(), 3);
    for(int i = 1; i < 5; i++) if(a[(i - 1) / 3] < a[i]) return 1;
    return 0;
}
"""
