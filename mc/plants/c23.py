ID="C23-switch-stays-on"; PROP="C23"
NEEDS="a ring filled to its very end, partly drained so that it wraps, then fully drained before anything is put in again"
BREAKS="the ring stays in wrapped mode although nothing wrapped around, and refuses data although it is empty"
EDITS=[("ext/willemt/bipbuffer/bipbuffer.c","""        /* replace a with region b */
        if (1 == me->b_inuse)""","""        /* replace a with region b */
        if (me->b_end > 0)""")]
DEMO=r"""
#include <estd/internal/bip/buffer.h>
int main()
{
    estd::layer1::bipbuf<8> b;
    const unsigned char d[8] = {1,2,3,4,5,6,7,8};
    if(b.offer(d, 8) != 8) return 2;
    if(!b.poll(4)) return 3;
    if(!b.poll(4)) return 4;
    return b.offer(d, 4) == 4 && b.used() == 4 ? 0 : 1;
}
"""
SRCS="-x c $PWD/src/estd/ext/willemt/bipbuffer/bipbuffer.c"
