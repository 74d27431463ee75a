import sys; sys.path.insert(0,'/verif/tools'); sys.path.insert(0,'/verif/tools/seeds')
from mkseed import mkseed
from pre import *
DOC=FULL+r"""
static std::string doc(const char* attributes) {
    return parsed((std::string("# A\n\n## R [/r]\n\n### G [GET]\n\n+ Response 200 (application/json)\n    + Attributes") + attributes).c_str());
}
static bool has(const std::string& s, const char* what) { return s.find(what) != std::string::npos; }
"""
mkseed('nullable-before-fixed','C30',[(RF+'JsonSchema.cc','''        if (options.test(FIXED_FLAG)) {
            if (!e.empty()) {
                if (options.test(NULLABLE_FLAG))
                    addEnum(s, so::Array{ so::from_list{}, so::Null{}, utils::instantiate(e.get()) });
                else
                    addEnum(s, so::Array{ so::from_list{}, utils::instantiate(e.get()) });
                return s;
            }
        }

        if (options.test(NULLABLE_FLAG)) {
            addAnyOf(s, so::Array{ so::from_list{}, nullSchema(), typeSchema(type_name<E>::value) });
            return s;
        }

        addType(s, type_name<E>::value);
''','''        if (options.test(NULLABLE_FLAG)) {
            addAnyOf(s, so::Array{ so::from_list{}, nullSchema(), typeSchema(type_name<E>::value) });
            return s;
        }

        if (options.test(FIXED_FLAG) && !e.empty()) {
            addEnum(s, so::Array{ so::from_list{}, utils::instantiate(e.get()) });
            return s;
        }

        addType(s, type_name<E>::value);
''')],'a member that is nullable and has a fixed value','its schema allows every value of the kind',DOC+r"""
int main() {
    std::string s = doc("\n        + a: x (fixed, nullable)\n");
    must(has(s, "messageBodySchema"), "a schema");
    must(has(s, "\\\"enum\\\":") || has(s, "\\\"enum\\\": ["), "null or the value");
}
""",full=True)
mkseed('default-is-no-value','C30',[(RF+'JsonValue.cc','''            if (!definesValue(*elementValue)) {''','''            if (elementValue->empty() && !findFirstSample(*elementValue)) {''')],'an optional member with a default but neither value nor sample','it is missing from the generated JSON value',DOC+r"""
int main() {
    std::string s = doc("\n        + a: x\n        + b (string, optional)\n            + Default: y\n");
    must(has(s, "messageBody"), "a body");
    must(has(s, "\\\"b\\\": \\\"y\\\""), "with the default of the optional member");
}
""",full=True)
