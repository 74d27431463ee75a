import sys; sys.path.insert(0,'/verif/tools'); sys.path.insert(0,'/verif/tools/seeds')
from mkseed import mkseed
from pre import *
DOC=FULL+r"""
static bool has(const std::string& s, const char* what) { return s.find(what) != std::string::npos; }
"""
mkseed('schema-only-beside-made-body','C32',[(DR+'RefractAPI.cc','''    } else if (dataStructureExpanded && !is_skip_gen_body_schemas(context.options())) {
''','''    } else if (dataStructureExpanded && payload.node->body.empty() && !is_skip_gen_body_schemas(context.options())) {
''')],'a message with a body of its own and Attributes, but no schema','the schema of the data structure is no longer made',DOC+r"""
int main() {
    std::string s = parsed("# A\n\n## R [/r]\n\n### X [POST]\n\n+ Response 200 (application/json)\n\n    + Attributes\n        + a: 1 (number)\n\n    + Body\n\n            {\"a\": 1}\n");
    must(has(s, "messageBodySchema"), "the message has a schema");
}
""",full=True)
mkseed('attributes-of-first-action-request','C32',[(DR+'RefractAPI.cc','''    if (!dataStructure && !action.isNull() && !action.node->attributes.empty())
''','''    if (!dataStructure && !action.isNull() && !action.node->attributes.empty() && payload.node->name.empty())
''')],'a named request of an action with Attributes','the request gets neither body nor schema of them',DOC+r"""
int main() {
    std::string s = parsed("# A\n\n## R [/r]\n\n### X [POST]\n\n+ Attributes\n    + a: 1 (number)\n\n+ Request N (application/json)\n\n+ Response 204\n");
    must(has(s, "messageBodySchema"), "the request has a schema");
}
""",full=True)
mkseed('duplicates-in-own-group','C33',[(AP+'snowcrash/ResourceGroupParser.h','''                if (element.element == Element::CategoryElement
                    && SectionProcessor<Resource>::isResourceDuplicate(element.content.elements(), uri)) {

                    return true;
                }
            }

            return false;''','''                if (element.element == Element::CategoryElement) {
                    return SectionProcessor<Resource>::isResourceDuplicate(element.content.elements(), uri);
                }
            }

            return false;''')],'a resource in a third group with the URI of one in the second group','the duplicate is not noted, since only the first group is searched',DOC+r"""
int main() {
    const char* r = "\n### X [GET]\n\n+ Response 200\n\n";
    std::string s = parsed((std::string("# A\n\n# Group G\n\n## R [/r]\n") + r + "# Group H\n\n## S [/s]\n" + r + "# Group I\n\n## T [/s]\n" + r).c_str());
    must(has(s, "the resource '/s' is already defined"), "the duplicate is noted");
}
""",full=True)
mkseed('headers-behind-own','C33',[(AP+'snowcrash/HeadersParser.h','''                    responseIt->headers.insert(responseIt->headers.begin(), headers.begin(), headers.end());
''','''                    responseIt->headers.insert(responseIt->headers.end(), headers.begin(), headers.end());
''')],'a response with headers of its own below a Headers section of its action or resource','the headers of the section come after its own',DOC+r"""
int main() {
    std::string s = parsed("# A\n\n## R [/r]\n\n### X [POST]\n\n+ Headers\n\n        X-A: 1\n\n+ Response 200\n\n    + Headers\n\n            X-B: 2\n");
    must(s.find("X-A") < s.find("X-B"), "the headers of the section come first");
}
""",full=True)
mkseed('duplicates-of-last-message','C33',[(AP+'snowcrash/ActionParser.h','''                return duplicate != example.responses.end();''','''                return duplicate != example.responses.end() && duplicate + 1 == example.responses.end();''')],'three responses of an action, the third of the status of the first','the duplicate is not noted',DOC+r"""
int main() {
    std::string s = parsed("# A\n\n## R [/r]\n\n### X [POST]\n\n+ Response 200\n\n    + Body\n\n            x\n\n+ Response 404\n\n    + Body\n\n            x\n\n+ Response 200\n\n    + Body\n\n            y\n");
    must(has(s, "already defined"), "the duplicate is noted");
}
""",full=True)
