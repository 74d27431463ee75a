// A stand-in for MPark.Variant (a submodule that is not in this tree): the C++17 standard library has the same.
#ifndef VERIF_MPARK_VARIANT_HPP
#define VERIF_MPARK_VARIANT_HPP
#include <cstdint>
#include <variant>
namespace mpark
{
    using std::bad_variant_access;
    using std::get;
    using std::get_if;
    using std::holds_alternative;
    using std::in_place_index;
    using std::in_place_index_t;
    using std::in_place_type;
    using std::in_place_type_t;
    using std::monostate;
    using std::variant;
    using std::visit;
}
#endif
