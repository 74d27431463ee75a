import sys; sys.path.insert(0,'/verif/tools'); sys.path.insert(0,'/verif/tools/seeds')
from mkseed import mkseed
from pre import *
SO=['drafter/src/utils/so/Value.cc','drafter/src/utils/so/JsonIo.cc','drafter/src/utils/so/YamlIo.cc']
U='packages/drafter/src/utils/so/'
mkseed('numeric-keys-bare','C20',[(U+'YamlIo.cc','''            if (c < 'A' || c > 'z' || (c > 'Z' && c < 'a') || c == '-')
                return false;
''','''            if ((c < 'A' || c > 'z' || (c > 'Z' && c < 'a')) && (c < '0' || c > '9'))
                return false;
''')],'a member whose key is all digits','its key reads back from YAML as a number',PRE+r"""
#include "utils/so/YamlIo.h"
#include "utils/so/Value.h"
#include <sstream>
using namespace drafter::utils;
int main() {
    so::Object o;
    o.data.emplace_back("404", so::String{ "none" });
    o.data.emplace_back("code", so::String{ "x" });
    std::ostringstream s;
    so::serialize_yaml(s, o);
    must(s.str().find("404") != std::string::npos, "the key is there");
    must(s.str().compare(0, 3, "404") != 0, "a text of digits is quoted, or it is a number");
}
""",shim=True,srcs=SO)
mkseed('maps-in-annotations-content','C21',[(RF+'SerializeSo.cc','''            auto attr = serialize(e.attributes(), renderSourceMaps || e.element() == "annotation");
''','''            // the place of an annotation is part of it
            renderSourceMaps = renderSourceMaps || e.element() == "annotation";
            auto attr = serialize(e.attributes(), renderSourceMaps);
''')],'an annotation whose content holds elements with source maps, source maps not asked for','source maps are rendered though not asked for',EL+r"""
#include "refract/SerializeSo.h"
#include "utils/so/JsonIo.h"
#include <sstream>
int main() {
    auto inner = from_primitive("text");
    inner->attributes().set("sourceMap", from_primitive("inner map"));
    auto e = make_element<ArrayElement>(std::move(inner));
    e->element("annotation");
    e->attributes().set("sourceMap", from_primitive("outer map"));
    std::ostringstream s;
    drafter::utils::so::serialize_json(s, refract::serialize::renderSo(*e, false));
    must(s.str().find("outer map") != std::string::npos, "annotations keep their source map");
    must(s.str().find("inner map") == std::string::npos, "what is in them does not");
}
""",shim=True,srcs=SO+['drafter/src/refract/SerializeSo.cc'])
mkseed('items-of-a-run','C22',[(U+'Value.cc','''    auto it = std::find_if(c.data.begin(), c.data.end(), [&value](const Array::container_type::value_type& entry) {
        return entry == value;
    });

    if (it == c.data.end())
        c.data.emplace_back(std::move(value));
''','''    // items of a kind come together, look no further back than that
    for (auto it = c.data.rbegin(); it != c.data.rend() && it->index() == value.index(); ++it)
        if (*it == value)
            return;
    c.data.emplace_back(std::move(value));
''')],'adding an item equal to one with an item of another kind in between','the item is added twice',PRE+r"""
#include "utils/so/Value.h"
using namespace drafter::utils;
int main() {
    so::Array a;
    so::emplace_unique(a, so::String{ "x" });
    so::emplace_unique(a, so::Null{});
    so::emplace_unique(a, so::String{ "x" });
    must(a.data.size() == 2, "x is there already");
}
""",shim=True,srcs=SO)
