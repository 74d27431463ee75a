import sys; sys.path.insert(0,'/verif/tools'); sys.path.insert(0,'/verif/tools/seeds')
from mkseed import mkseed
from pre import *
mkseed('outline-stops-at-source-map','C14',[(RF+'PrintVisitor.cc','''            if (a.first == "sourceMap")
                continue;
''','''            if (a.first == "sourceMap")
                break; // the source map comes last
''')],'attributes that follow the source map','the outline leaves out every attribute after the source map',EL+r'''
#include "refract/PrintVisitor.h"
#include <sstream>
int main() {
    auto e = make_element<StringElement>("x");
    e->attributes().set("a", from_primitive("1"));
    e->attributes().set("sourceMap", make_element<ArrayElement>());
    e->attributes().set("b", from_primitive("2"));
    std::ostringstream o; PrintVisitor p(0, o); p(static_cast<const IElement&>(*e));
    must(o.str().find("`a`") != std::string::npos, "a");
    must(o.str().find("`b`") != std::string::npos, "b");
}
''')
mkseed('type-attribute-gives-up','C15',[(RF+'VisitorUtils.h','''            auto attr = TypeQueryVisitor::as<const StringElement>(value.get());
            if (!attr) {
                continue;
            }
            if (attr->get() == typeAttribute) {
                return true;
            }
''','''            auto attr = TypeQueryVisitor::as<const StringElement>(value.get());
            if (!attr || attr->empty()) {
                return false;
            }
            if (attr->get() == typeAttribute) {
                return true;
            }
''')],'a type attribute after one that is no text','the type attribute is not found',EL+r'''
#include "refract/VisitorUtils.h"
int main() {
    auto e = make_element<StringElement>();
    e->attributes().set("typeAttributes", make_element<ArrayElement>(from_primitive(true), from_primitive("fixed")));
    must(HasTypeAttribute(*e, "fixed"), "fixed");
    must(!HasTypeAttribute(*e, "nullable"), "nullable");
}
''')
