#ifndef VERIF_TAO_PEGTL_ABNF_HPP
#define VERIF_TAO_PEGTL_ABNF_HPP
#include "../../pegtl.hpp"
namespace tao
{
    namespace pegtl
    {
        namespace abnf
        {
            struct ALPHA : ascii::alpha {
            };
            struct DIGIT : ascii::digit {
            };
            struct HEXDIG : sor<ascii::digit, ascii::range<'a', 'f'>, ascii::range<'A', 'F'> > {
            };
            struct VCHAR : ascii::range<33, 126> {
            };
            struct WSP : ascii::one<' ', '\t'> {
            };
        }
    }
}
#endif
