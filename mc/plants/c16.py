ID="C16-narrow-count"; PROP="C16"
NEEDS="more than 255 references to one object at a time"
BREAKS="the reference count wraps, so the object is destroyed while still referenced"
EDITS=[("memory.h","template <class T, typename TCount = uint16_t>","template <class T, typename TCount = uint8_t>")]
DEMO=r"""
#include <estd/memory.h>
#include <new>
static int died = 0;
struct X { ~X() { died++; } };
int main()
{
    typedef estd::layer3::shared_ptr<X> R;
    estd::layer1::shared_ptr<X> m; m.construct();
    static char mem[300][sizeof(R)] __attribute__((aligned(16)));
    R* r[300];
    for(int i = 0; i < 300; i++) r[i] = new (mem[i]) R(m);
    int bad = 0;
    for(int i = 0; i < 300; i++) { r[i]->reset(); if(died) bad = 1; }
    m.reset();
    return bad || died != 1;
}
"""
