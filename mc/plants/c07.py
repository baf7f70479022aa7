ID="C07-erase-before-sparse"; PROP="C07"
NEEDS="three colliding keys: erase the middle one, then the first one, then look up the third"
BREAKS="erasing an entry just before an already erased slot ends the bucket there, hiding live keys behind it"
EDITS=[("internal/container/unordered_map.h","if(auto_prune && (next == container_.cend() || is_null_not_sparse(*next)))","if(auto_prune && (next == container_.cend() || is_empty(*next)))")]
DEMO=r"""
#include <estd/string.h>
#include <estd/unordered_map.h>
struct H { unsigned operator()(int k) const { return k & 3; } };
int main()
{
    estd::layer1::unordered_map<int, int, 16, H> m;
    m.emplace(1, 10); m.emplace(5, 50); m.emplace(9, 90);
    if(m.erase(5) != 1 || m.erase(1) != 1) return 1;
    return m.contains(9) && m.size() == 1 ? 0 : 1;
}
"""
