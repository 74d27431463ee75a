#include "../../../tao/pegtl.hpp"
