ID="C17-narrow-free-count"; PROP="C17"
NEEDS="a pool with more than 255 free blocks"
BREAKS="the number of available blocks is reported modulo 256"
EDITS=[("internal/memory/v1/pool.h","        unsigned size = 0;\n\n        for(const control","        unsigned char size = 0;\n\n        for(const control")]
DEMO=r"""
#include <estd/memory.h>
int main() { static estd::internal::memory::pool<16, 300> p; return p.available_blocks() == 300 ? 0 : 1; }
"""
