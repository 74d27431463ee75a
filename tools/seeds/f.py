import sys; sys.path.insert(0,'/verif/tools'); sys.path.insert(0,'/verif/tools/seeds')
from mkseed import mkseed
from pre import *
mkseed('unsigned-through-signed','C24',[(RF+'dsd/Number.h','''explicit Number(N v) noexcept : value_(std::to_string(v))''','''explicit Number(N v) noexcept : value_(std::to_string(static_cast<std::int64_t>(v)))''')],
'a number made from an unsigned integer of the upper half of 64 bits','the number is negative',EL+r"""
#include <cstdint>
int main() {
    must(dsd::Number(static_cast<std::uint64_t>(1) << 63).get() == "9223372036854775808", "2^63 is written with its digits");
}
""")
mkseed('checked-without-options','C25',[(DR+'drafter.cc','''    drafter_error ret = res ? drafter_parse_blueprint(source, &result, parse_opts) :
                              drafter_parse_blueprint(source, nullptr, parse_opts);

    if (!result) {
        return ret;
    }

    drafter_result* out = nullptr;
''','''    if (!res) {
        return drafter_parse_blueprint(source, nullptr, nullptr);
    }

    drafter_error ret = drafter_parse_blueprint(source, &result, parse_opts);

    if (!result) {
        return ret;
    }

    drafter_result* out = nullptr;
''')],'checking for the code alone, with a name required, a document without one','the code is that of a document that is fine',FULL+r"""
int main() {
    drafter_parse_options* o = drafter_init_parse_options();
    drafter_set_name_required(o);
    const char* doc = "# GET /x\n+ Response 200\n";
    drafter_result* r = nullptr;
    const int code = drafter_check_blueprint(doc, &r, o);
    must(code == 2 && r, "a name is missing");
    must(drafter_check_blueprint(doc, nullptr, o) == code, "checking returns the same code without a place for what it finds");
}
""",full=True)
mkseed('check-keeps-result','C26',[(DR+'drafter.cc','''        out->element(drafter::SerializeKey::ParseResult);
    }

    drafter_free_result(result);

    *res = out;
''','''        out->element(drafter::SerializeKey::ParseResult);
        drafter_free_result(result);
    }

    *res = out;
''')],'checking a document without errors and warnings','the parse result is never freed',FULL.replace('#include "drafter.h"','''#include "drafter.h"
static long blocks = 0;
#include <new>
void* operator new(std::size_t n) { ++blocks; return std::malloc(n); }
void operator delete(void* p) noexcept { if (p) --blocks; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) --blocks; std::free(p); }
''')+r"""
int main() {
    long live[3];
    for (auto& l : live) {
        drafter_result* r = nullptr;
        must(drafter_check_blueprint("FORMAT: 1A\n\n# A\n\n# GET /x\n+ Response 204\n", &r, nullptr) == 0 && !r, "nothing to find");
        l = blocks;
    }
    must(live[2] == live[1], "checking gives its memory back");
}
""",full=True)
