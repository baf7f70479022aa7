ID="C38-taking-in-toggles"; PROP="C38"
NEEDS="|= with a flag that is already set, on an enum with a |= of its own"
BREAKS="taking in a flag that is already set clears it"
EDITS=[("flags.h","        value_ |= v;","        value_ = value_type(int_type(value_) ^ int_type(v.value_));")]
DEMO=r"""
#include <estd/flags.h>
namespace m { enum class F : unsigned { none = 0, a = 1, b = 2 }; ESTD_FLAGS(F) inline F& operator|=(F& l, F r) { return l = F(unsigned(l) | unsigned(r)); } }
int main()
{
    estd::detail::v1::flags<m::F> x(m::F::a);
    x |= m::F::b;
    if(unsigned(x.value()) != 3) return 1;
    x |= m::F::a;
    return unsigned(x.value()) == 3 ? 0 : 1;
}
"""
