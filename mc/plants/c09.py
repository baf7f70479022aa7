ID="C09-bytes-by-element"; PROP="C09"
NEEDS="looking at a run-time sized span of elements larger than a byte as bytes that may be written"
BREAKS="only as many bytes as there are elements are seen"
EDITS=[("span.h","    return span<byte, detail::dynamic_extent::value>(reinterpret_cast<byte*>(s.data()), s.size_bytes());","    return span<byte, detail::dynamic_extent::value>(reinterpret_cast<byte*>(s.data()), s.size());")]
DEMO=r"""
#include <cstdint>
#include <estd/span.h>
int main()
{
    uint32_t words[3] = { 1, 2, 3 };
    estd::span<uint32_t> s(words, 3);
    auto b = estd::as_writable_bytes(s);
    if(b.size() != sizeof words) return 1;
    for(unsigned i = 0; i < b.size(); i++) b[i] = estd::byte(0);
    return words[0] | words[1] | words[2] ? 1 : 0;
}
"""
