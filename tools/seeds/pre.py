AP='packages/apib-parser/src/'; DR='packages/drafter/src/'; RF=DR+'refract/'
PRE='''
#include <cstdio>
#include <cstdlib>
#include <string>
static void must(bool ok, const char* what) { if (!ok) { std::printf("FAIL: %s\\n", what); std::exit(1); } }
'''
EL=PRE+'''
#include "refract/Element.h"
#include "refract/Utils.h"
#include "refract/Registry.h"
#include "refract/ExpandVisitor.h"
#include "refract/TypeQueryVisitor.h"
#include "SourceAnnotation.h"
using namespace refract;
'''
FULL=PRE+'''
#include "drafter.h"
#include "options.h"
#include "refract/Element.h"
#include <cstring>
static std::string parsed(const char* doc, bool maps = false, int* code = nullptr) {
    drafter_serialize_options* o = drafter_init_serialize_options();
    drafter_set_format(o, DRAFTER_SERIALIZE_JSON);
    if (maps) drafter_set_sourcemaps_included(o);
    char* out = nullptr;
    int c = drafter_parse_blueprint_to(doc, &out, nullptr, o);
    if (code) *code = c;
    drafter_free_serialize_options(o);
    std::string s = out ? out : "";
    std::free(out);
    std::string packed; // without white space between values
    bool in = false;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '"' && (i == 0 || s[i - 1] != '\\\\')) in = !in;
        if (in || (s[i] != ' ' && s[i] != '\\n')) packed += s[i];
    }
    return packed;
}
'''
