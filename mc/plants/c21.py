ID="C21-lone-minus"; PROP="C21"
NEEDS="a minus sign followed by something that is not a digit"
BREAKS="a lone minus sign is taken for a number and read as zero without a failure"
EDITS=[("internal/locale/iterated/num_get.h","""            case FirstNegative:
                if(nominal<false>(c, err, v))
                {
                    // "if the conversion function fails std::ios_base::failbit is assigned to err" [1]
                    err |= ios_base::failbit;
                    return true;
                }
                else
                    return false;

            case NominalPositive:""","""            case FirstNegative:
                return nominal<false>(c, err, v);

            case NominalPositive:""")]
DEMO=r"""
#include <estd/sstream.h>
#include <estd/istream.h>
int main()
{
    estd::layer1::stringbuf<16> b; b.sputn("-x", 2);
    estd::detail::basic_istream<estd::layer1::stringbuf<16>&> in(b);
    int v = 5; in >> v;
    return in.fail() ? 0 : 1;
}
"""
