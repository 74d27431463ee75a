import sys; sys.path.insert(0,'/verif/tools'); sys.path.insert(0,'/verif/tools/seeds')
from mkseed import mkseed
from pre import *
mkseed('same-method-same-action','C27',[(DR+'RefractAPI.cc','''            for (const auto& response : responses) {
                content.push_back(TransactionToRefract(example, action, request, response, context));
            }
''','''            if (requests.size() > 1 && requests.size() == responses.size()) {
                content.push_back(TransactionToRefract(
                    example, action, request, responses.begin()[&request - &*requests.begin()], context));
                continue;
            }

            for (const auto& response : responses) {
                content.push_back(TransactionToRefract(example, action, request, response, context));
            }
''')],'as many responses as requests in one example of an action, more than one','each response answers the request of its position alone',FULL+r"""
#include <string>
int main() {
    char* out = nullptr;
    drafter_serialize_options* so = drafter_init_serialize_options();
    drafter_set_format(so, DRAFTER_SERIALIZE_JSON);
    const char* doc = "# A\n\n# GET /x\n\n+ Request One\n\n        q\n\n+ Request Two\n\n        r\n\n+ Response 200\n\n        s\n\n+ Response 404\n\n        t\n";
    must(drafter_parse_blueprint_to(doc, &out, nullptr, so) == 0 && out, "the document is fine");
    const std::string s = out;
    std::size_t n = 0;
    for (std::size_t at = 0; (at = s.find("httpTransaction", at)) != std::string::npos; ++at)
        ++n;
    must(n == 4, "each request has each of the responses");
}
""",full=True)
