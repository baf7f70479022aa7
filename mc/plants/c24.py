ID="C24-end-while-skipping"; PROP="C24"
NEEDS="skipping up to a delimiter when the text ends after at least one skipped character"
BREAKS="the end of the input is not reported although it was run into"
EDITS=[("internal/istream.h","""            int_type ch = this->rdbuf()->sbumpc();

            if (ch == traits_type::eof())
            {
                this->setstate(ios_base::eofbit);
                break;
            }

            ++extracted;

            // "delim""","""            int_type ch = this->rdbuf()->sbumpc();

            if (ch == traits_type::eof())
            {
                if(extracted == 0) this->setstate(ios_base::eofbit);
                break;
            }

            ++extracted;

            // "delim""")]
DEMO=r"""
#include <estd/istream.h>
#include <estd/sstream.h>
int main()
{
    estd::layer1::basic_istringstream<char, 32> in("abc");
    in.ignore(10, 'x');
    return in.eof() ? 0 : 1;
}
"""
