import sys; sys.path.insert(0,'/verif/tools'); sys.path.insert(0,'/verif/tools/seeds')
from mkseed import mkseed
from pre import *
SC=AP+'snowcrash/'
mkseed('dangling-body-moves','C23',[(SC+'ActionParser.h','''                if (pd.exportSourceMap() && !content.empty()) {
                    out.sourceMap.examples.collection.back().responses.collection.back().body.sourceMap.append(
                        node->sourceMap);
                }
''','''                if (pd.exportSourceMap() && !content.empty()) {
                    // the body is what was found last
                    out.sourceMap.examples.collection.back().responses.collection.back().body.sourceMap
                        = node->sourceMap;
                }
''')],'a response followed by two or more blocks that are taken for its body','the source map of the body covers its last block only',FULL+r"""
int main() {
    const std::string one = parsed("# GET /x\n+ Response 200\n\ntext\n\nmore\n", true);
    std::printf("%s\n", one.c_str());
    must(one.find("more") != std::string::npos, "both blocks are the body");
    // the body's source map starts where "text" does, at 25
    must(one.find("\"element\":\"number\",\"content\":25}") != std::string::npos, "the source map covers the first block");
}
""",full=True)
