import sys; sys.path.insert(0,'/verif/tools'); sys.path.insert(0,'/verif/tools/seeds')
from mkseed import mkseed
from pre import *
DOC=FULL+r"""
static bool has(const std::string& s, const char* what) { return s.find(what) != std::string::npos; }
"""
mkseed('long-media-types-lost','C36',[(AP+'grammar/Mediatype.h','''                           pegtl::rep_max<126, pegtl::sor<pegtl::ascii::alnum, restricted> >''','''                           pegtl::rep_max<50, pegtl::sor<pegtl::ascii::alnum, restricted> >''')],'a subtype of more than 51 letters','the body has no media type',DOC+r"""
int main() {
    must(has(parsed("# A\n\n## R [/r]\n\n### Do [GET]\n\n+ Response 200 (text/plain)\n\n        x\n"), "\"contentType\":{\"element\":\"string\",\"content\":\"text/plain\"}"), "a short one");
    must(has(parsed("# A\n\n## R [/r]\n\n### Do [GET]\n\n+ Response 200 (application/vnd.openxmlformats-officedocument.wordprocessingml.document)\n\n        x\n"),
        "\"contentType\":{\"element\":\"string\",\"content\":\"application/vnd.openxmlformats-officedocument.wordprocessingml.document\"}"), "a long one");
}
""",full=True)
mkseed('schema-of-suffixed','C36',[(DR+'RefractAPI.cc','''            serialize(apib::isJSON(mediaType) ? jsonSchemaType() : textPlainType()),''','''            serialize(apib::isJSON(mediaType) && mediaType.suffix.empty() ? jsonSchemaType() : textPlainType()),''')],'a schema with a message of a type like application/hal+json','the schema is called plain text',DOC+r"""
static std::string doc(const char* type) { return std::string("# A\n\n## R [/r]\n\n### Do [GET]\n\n+ Response 200 (") + type + ")\n\n    + Body\n\n            {}\n\n    + Schema\n\n            {}\n"; }
int main() {
    must(has(parsed(doc("application/json").c_str()), "application/schema+json"), "JSON");
    must(has(parsed(doc("application/hal+json").c_str()), "application/schema+json"), "a kind of JSON");
}
""",full=True)
mkseed('escapes-in-nested-brackets','C37',[(AP+'snowcrash/SignatureSectionProcessor.h','''                    if (!escapedString.empty()) {
                        returnString += escapedString;
                        i = 0;''','''                    if (!escapedString.empty()) {
                        returnString += escapedString;
                        i = begin;''')],'an escaped name among nested types','the types after it are lost',DOC+r"""
int main() {
    std::string s = parsed("# A\n\n# Data Structures\n\n## a,b\n\n+ x\n\n## T\n\n+ list (array[`a,b`, string], required)\n");
    must(has(s, "\"typeAttributes\":{\"element\":\"array\",\"content\":[{\"element\":\"string\",\"content\":\"required\"}]}"), "what comes after the type");
    must(has(s, "\"content\":[{\"element\":\"a,b\"},{\"element\":\"string\"}]"), "the nested types");
}
""",full=True)
mkseed('link-last-among-nested','C37',[(AP+'snowcrash/MSONUtility.h','''        if (buffer.empty() || alreadyParsedLink) {''','''        if (buffer.empty() || (alreadyParsedLink && typeSpecification.nestedTypes.size() == 1)) {''')],'a link as the last of several nested types','its address is taken for one more type',DOC+r"""
int main() {
    must(has(parsed("# A\n\n# Data Structures\n\n## B\n\n+ x\n\n## T\n\n+ list (array[[B](#b)])\n"), "\"content\":[{\"element\":\"B\"}]"), "one link");
    must(has(parsed("# A\n\n# Data Structures\n\n## B\n\n+ x\n\n## T\n\n+ list (array[string, [B](#b)])\n"), "\"content\":[{\"element\":\"string\"},{\"element\":\"B\"}]"), "a link after a name");
}
""",full=True)
