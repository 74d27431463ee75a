import sys; sys.path.insert(0,'/verif/tools'); sys.path.insert(0,'/verif/tools/seeds')
from mkseed import mkseed
from pre import *
SC=AP+'snowcrash/'
mkseed('model-headers-once','C28',[(SC+'PayloadParser.h','''                out.node.headers.insert(out.node.headers.end(), model.headers.begin(), model.headers.end());
''','''                for (const auto& header : model.headers) {
                    if (std::find_if(out.node.headers.begin(),
                            out.node.headers.end(),
                            std::bind2nd(MatchFirstWith<Header, std::string, IEqual<std::string> >(), header.first))
                        == out.node.headers.end()) {
                        out.node.headers.push_back(header);
                    }
                }
''')],'a payload with a content type of its own that refers to a model with several headers of one name (Set-Cookie, Link) and no Content-Type','of those headers, only the first is left',FULL+r"""
#include <string>
static std::size_t count(const std::string& s, const char* what) {
    std::size_t n = 0;
    for (std::size_t at = 0; (at = s.find(what, at)) != std::string::npos; ++at)
        ++n;
    return n;
}
int main() {
    const std::string s = parsed("# A\n\n## R [/r]\n\n+ Model\n\n    + Headers\n\n            Set-Cookie: a=1\n            Set-Cookie: b=2\n\n    + Body\n\n            x\n\n### G [GET]\n\n+ Response 200 (text/plain)\n\n    [R][]\n");
    must(count(s, "Set-Cookie") == 2, "both cookies are there");
    must(s.find("\"a=1\"") != std::string::npos && s.find("\"b=2\"") != std::string::npos, "with their values");
}
""",full=True)
mkseed('values-searched-until-one','C29',[(SC+'ParameterParser.h','''                if (out.node.defaultValue == *it) {
                    isDefaultFound = true;
                }
            }
''','''                if (out.node.defaultValue == *it) {
                    isDefaultFound = true;
                }

                if (isExampleFound || isDefaultFound) {
                    break;
                }
            }
''')],'a parameter with values, an example and a default that are both among them, at different places','the warning that the default or example is not in the list of values',FULL+r"""
#include <string>
int main() {
    const std::string s = parsed("# A\n\n## R [/{id}]\n\n+ Parameters\n    + id: `a` (enum[string], optional)\n        + Default: `b`\n        + Members\n            + `a`\n            + `b`\n\n### G [GET]\n\n+ Response 204\n");
    must(s.find("httpResponse") != std::string::npos, "parsed");
    must(s.find("annotation") == std::string::npos, "nothing to remark on");
}
""",full=True)
