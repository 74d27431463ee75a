import sys; sys.path.insert(0,'/verif/tools'); sys.path.insert(0,'/verif/tools/seeds')
from mkseed import mkseed
from pre import *
DOC=FULL+r"""
static std::string doc(const char* members) {
    return parsed((std::string("# A\n\n# Data Structures\n\n## T\n\n") + members).c_str());
}
static bool has(const std::string& s, const char* what) { return s.find(what) != std::string::npos; }
static std::string after(const std::string& s, const char* what) { auto i = s.find(what); return i == std::string::npos ? "" : s.substr(i); }
"""
DS='packages/drafter/src/RefractDataStructure.cc'
mkseed('hints-after-values','C31',[(DS,'''                std::move(hint.value.begin(), hint.value.end(), std::back_inserter(element.get()));
                std::move(inlines.value.begin(), inlines.value.end(), std::back_inserter(element.get()));
                std::move(info.value.begin(), info.value.end(), std::back_inserter(element.get()));
''','''                std::move(inlines.value.begin(), inlines.value.end(), std::back_inserter(element.get()));
                std::move(hint.value.begin(), hint.value.end(), std::back_inserter(element.get()));
                std::move(info.value.begin(), info.value.end(), std::back_inserter(element.get()));
''')],'an array of several nested types that has values on its line','the nested types come after the values instead of before them',DOC+r"""
int main() {
    std::string s = after(doc("+ a: v, w (array[string, number])\n"), "\"array\"");
    must(s.find("number") != std::string::npos && s.find("number") < s.find("\"v\""), "the nested types come first");
}
""",full=True)
mkseed('described-value-is-another','C31',[(DS,'''                                                       return Equal<detail::IgnoreKeys>(*val,
                                                           *in,
                                                           detail::IgnoreKeys({ "sourceMap" }),
                                                           detail::IgnoreKeys({ "description" }));''','''                                                       return Equal<detail::IgnoreKeys>(*val,
                                                           *in,
                                                           detail::IgnoreKeys({ "sourceMap" }),
                                                           detail::IgnoreKeys({ "sourceMap" }));''')],'an enum whose value on the line is listed below with a description','the value keeps its place before the listed ones, loses its description and is said to be there twice',DOC+r"""
int main() {
    std::string s = doc("+ a: v (enum)\n    + w\n    + v - text\n");
    must(!has(s, "duplicit"), "no value is there twice");
    must(has(s, "text"), "the description is kept");
}
""",full=True)
