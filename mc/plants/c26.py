ID="C26-percent-in-narrow"; PROP="C26"
NEEDS="a percentage of a range whose counts are 16 bits wide"
BREAKS="the product wraps in the range's own type before it is divided"
EDITS=[("internal/units/percent.h","    auto v = range.count() * p.count();","    auto v = decltype(range.count())(range.count() * p.count());")]
DEMO=r"""
#include <estd/ratio.h>
#include <estd/internal/units/percent.h>
#include <estd/internal/units/operators.hpp>
#include <cstdint>
namespace eu = estd::internal::units;
struct len_tag {};
template <class T> using length = eu::unit_base<T, estd::ratio<1>, len_tag>;
namespace estd { namespace internal { namespace units { template <> struct traits<len_tag> { static constexpr const char* name() { return "l"; } static constexpr const char* abbrev() { return "l"; } }; } } }
int main()
{
    return eu::get_from_percent(eu::percent<int>(50), length<int16_t>(0), length<int16_t>(1000)).count() == 500 ? 0 : 1;
}
"""
