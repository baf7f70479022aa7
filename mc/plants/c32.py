ID="C32-release-keeps"; PROP="C32"
NEEDS="a lock that was told to let go of its mutex without unlocking it, and is then asked which mutex it has"
BREAKS="after release the lock still names the mutex as its own"
EDITS=[("mutex.h","        base_type::value(NULLPTR);\n","        if(temp == NULLPTR) base_type::value(NULLPTR);\n")]
DEMO=r"""
#include <estd/mutex.h>
struct M { int n = 0; void lock() { n++; } void unlock() { n--; } bool try_lock() { n++; return true; } };
int main() { M m; { estd::unique_lock<M> l(m); if(l.mutex() != &m) return 2; if(l.release() != &m) return 3; if(l.mutex()) return 1; } return m.n == 1 ? 0 : 4; }
"""
