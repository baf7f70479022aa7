ID="C04-insert-shifts-copies"; PROP="C04"
NEEDS="inserting into a vector in front of at least two elements of a type that can be copied or moved but not assigned"
BREAKS="the elements behind are shifted front first, so the first of them overwrites the others"
EDITS=[("internal/dynamic_array.h","""        while (first != last)
            new (--d_last) T2(std::move(*--last));""","""        for (pointer d = d_last - (last - first); first != last; ++first, ++d)
            new (d) T2(std::move(*first));""")]
DEMO=r"""
#include <estd/vector.h>
struct A { const int v; A(int v) : v(v) {} A(const A&) = default; A(A&&) = default; A& operator=(const A&) = delete; A& operator=(A&&) = delete; };
int main()
{
    estd::layer1::vector<A, 8> x;
    for(int i = 0; i < 4; i++) x.emplace_back(i);
    auto i = x.begin(); ++i;
    x.insert(i, A(9));
    int want[] = { 0, 9, 1, 2, 3 };
    for(int n = 0; n < 5; n++) if(x.data()[n].v != want[n]) return 1;
    return x.size() == 5 ? 0 : 2;
}
"""
