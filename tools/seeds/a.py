import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
AP='packages/apib-parser/src/'; DR='packages/drafter/src/'; RF=DR+'refract/'
PRE='''
#include <cstdio>
#include <cstdlib>
#include <string>
static void must(bool ok, const char* what) { if (!ok) { std::printf("FAIL: %s\\n", what); std::exit(1); } }
'''
EL=PRE+'''
#include "refract/Element.h"
#include "refract/Utils.h"
#include "refract/Registry.h"
#include "refract/ExpandVisitor.h"
#include "refract/TypeQueryVisitor.h"
#include "SourceAnnotation.h"
using namespace refract;
'''
mkseed('trailing-backslash','C01',[(DR+'backend/MediaTypeS11n.cc',
'''        for (const auto& c : v)
            if (c == '\\\\' || c == '"')
                out << '\\\\' << c;
''','''        for (const auto& c : v)
            if (c == '"' || (c == '\\\\' && &c != &v.back()))
                out << '\\\\' << c;
''')],'a parameter value that ends in a backslash','the last backslash is not escaped and escapes the closing quote',PRE+r'''
#include "backend/MediaTypeS11n.h"
#include <apib/syntax/MediaType.h>
#include <sstream>
int main() {
    apib::syntax::media_type m; m.type = "text"; m.subtype = "plain";
    m.parameters.emplace_back("a", "x \\");
    std::ostringstream o; using apib::backend::operator<<; o << m;
    must(o.str() == "text/plain; a=\"x \\\\\"", o.str().c_str());
}
''')
mkseed('incremental-ranges','C02',[(AP+'markdown-parser/ByteBuffer.cc',
'''    for (BytesRangeSet::const_iterator it = rangeSet.begin(); it != rangeSet.end(); ++it) {
        CharactersRange characterRange = BytesRangeToCharactersRange(*it, byteBuffer);
        characterMap.push_back(characterRange);
    }
''','''    BytesRange lastBytes;
    CharactersRange lastCharacters;
    for (BytesRangeSet::const_iterator it = rangeSet.begin(); it != rangeSet.end(); ++it) {
        // ranges that start where the last one did need no second scan of what precedes them
        if (characterMap.empty() || it->location != lastBytes.location || it->length > lastBytes.length) {
            lastCharacters = BytesRangeToCharactersRange(*it, byteBuffer);
            lastBytes = *it;
        }
        characterMap.push_back(lastCharacters);
    }
''')],'two consecutive ranges with the same start, the second one shorter','the second range is reported as long as the first',PRE+r'''
#include "ByteBuffer.h"
int main() {
    mdp::BytesRangeSet s; s.push_back(mdp::BytesRange(1, 4)); s.push_back(mdp::BytesRange(1, 2));
    mdp::CharactersRangeSet c = mdp::BytesRangeSetToCharactersRangeSet(s, mdp::ByteBuffer("abcdefgh"));
    must(c.size() == 2 && c[0].location == 1 && c[0].length == 4, "first");
    must(c[1].location == 1 && c[1].length == 2, "second");
}
''')
mkseed('low-surrogates','C03',[(DR+'utils/Utf8.h','result >= 0xD800 && result <= 0xDFFF','result >= 0xD800 && result <= 0xDBFF')],
'a three byte sequence encoding a low surrogate (U+DC00 to U+DFFF)','low surrogates are decoded as if they were code points',PRE+r'''
#include "utils/Utf8.h"
int main() {
    std::string s("\xED\xB0\x80");
    auto r = drafter::utils::utf8::decode_one(s.begin(), s.end());
    must(r.first == drafter::utils::utf8::replacement && r.second == s.end(), "low surrogate");
}
''')
mkseed('narrow-newline','C04',[(DR+'SourceMapUtils.cc',"if (*it == '\\n')","if (static_cast<char>(*it) == '\\n')")],
'a multi byte character whose code point ends in 0A, e.g. U+010A','the character counts as a line break, so that every later position is off',PRE+r'''
#include "SourceMapUtils.h"
int main() {
    std::string s("a\xC4\x8A" "b\ncd\n");
    auto idx = drafter::GetLinesEndIndex(s);
    auto p = drafter::GetLineFromMap(idx, mdp::Range(4, 1));
    must(p.fromLine == 2 && p.fromColumn == 1, "line and column");
}
''')
mkseed('kept-source-map','C05',[(AP+'markdown-parser/MarkdownNode.cc','''    this->type = rhs.type;
    this->text = rhs.text;
    this->data = rhs.data;
    this->sourceMap = rhs.sourceMap;
    this->m_parent''','''    this->type = rhs.type;
    this->text = rhs.text;
    this->data = rhs.data;
    if (!rhs.sourceMap.empty())
        this->sourceMap = rhs.sourceMap;
    this->m_parent''')],'assigning a node without a source map to one that has one','the old source map stays',PRE+r'''
#include "MarkdownNode.h"
int main() {
    mdp::MarkdownNode a(mdp::ParagraphMarkdownNodeType, NULL, "a"), b(mdp::ParagraphMarkdownNodeType, NULL, "b");
    a.sourceMap.push_back(mdp::BytesRange(1, 2));
    a = b;
    must(a.text == "b" && a.sourceMap.empty(), "source map");
}
''')
mkseed('lost-groups','C06',[(AP+'snowcrash/posix/RegexMatch.cc','''                if (pmatch[i].rm_so == -1 || pmatch[i].rm_eo == -1)
                    captureGroups.push_back(std::string());
                else''','''                if (pmatch[i].rm_so == -1 || pmatch[i].rm_eo == -1)
                    captureGroups.resize(groupSize);
                else if (i < captureGroups.size())
                    captureGroups[i] = target.substr(pmatch[i].rm_so, pmatch[i].rm_eo);
                else''')],'an unmatched group before a matched one that does not start at the beginning','the capture after a group that took no part runs beyond its end',PRE+r'''
#include "RegexMatch.h"
int main() {
    snowcrash::CaptureGroups g;
    must(snowcrash::RegexCapture("xxab--", "x(c)?(a)(b)", g, 5), "match");
    must(g.size() == 5 && g[0] == "xab" && g[1] == "" && g[2] == "a" && g[3] == "b" && g[4] == "", "groups");
}
''')
mkseed('full-clone-shortcut','C07',[(RF+'Element.h','''            auto el = refract::make_unique<Element>();

            if (flags & IElement::cElement)''','''            if ((flags & IElement::cAll) == IElement::cAll)
                return refract::make_unique<Element>(*this);

            auto el = refract::make_unique<Element>();

            if (flags & IElement::cElement)''')],'a clone of everything without the id (cAll | cNoMetaId)','the id is cloned',EL+r'''
int main() {
    auto e = from_primitive("x");
    e->meta().set("id", from_primitive(std::string("T"))); e->meta().set("title", from_primitive(std::string("t")));
    auto c = e->clone(IElement::cAll | IElement::cNoMetaId);
    must(c->meta().size() == 1 && c->meta().find("id") == c->meta().end(), "id is gone");
    must(e->clone()->meta().size() == 2, "full clone");
}
''')
mkseed('source-maps-equal','C08',[(RF+'Utils.cc','return (l.first == r.first) && (*l.second == *r.second);','return (l.first == r.first) && (l.first == "sourceMap" || *l.second == *r.second);')],
'two elements that differ only in their source map','they are equal',EL+r'''
int main() {
    auto mk = [](std::string v) { auto e = from_primitive(std::string("x")); e->attributes().set("sourceMap", from_primitive(v)); return e; };
    must(*mk("a") == *mk("a") && *mk("a") != *mk("b"), "equality");
}
''')
mkseed('claim-reorders','C09',[(RF+'InfoElements.cc','''        std::unique_ptr<IElement> result(it->second.release());
        elements.erase(it);
''','''        std::unique_ptr<IElement> result(it->second.release());
        std::swap(*it, elements.back());
        elements.pop_back();
''')],'claiming an entry with at least two after it','the last entry takes the place of the claimed one: the order of keys changes',EL+r'''
int main() {
    InfoElements i;
    for (std::string k : { "a", "b", "c" }) i.set(k, from_primitive(k));
    auto a = i.claim("a");
    must(i.size() == 2 && i.begin()->first == "b" && (i.begin() + 1)->first == "c", "order");
    must(*a == *from_primitive(std::string("a")), "claimed");
}
''')
mkseed('member-replaced-in-place','C10',[(RF+'dsd/Object.cc','''                        if (it != end())
                            erase(it);
                    }
''','''                        if (it != end()) {
                            *it = std::move(el);
                            return;
                        }
                    }
''')],'adding a member with the name of one that is not the last','the new member does not go to the end of the object',EL+r'''
int main() {
    dsd::Object o;
    o.push_back(make_element<MemberElement>("a", from_primitive("1")));
    o.push_back(make_element<MemberElement>("b", from_primitive("2")));
    o.push_back(make_element<MemberElement>("a", from_primitive("3")));
    must(o.size() == 2, "size");
    auto last = TypeQueryVisitor::as<const MemberElement>(o.begin()[1].get());
    must(*last->get().value() == *from_primitive("3"), "order");
}
''')
mkseed('id-overwritten','C11',[(RF+'Registry.cc','''    if (find(id)) {
        // there is already already element with given name
        return false;
    }

    types_[id] = std::move(element);
    return true;''','''    // false if there is already already element with given name
    auto& slot = types_[id];
    const bool added = !slot;
    slot.swap(element);
    return added;''')],'adding a second type under the same name and looking it up afterwards','the refused type takes the place of the first',EL+r'''
int main() {
    Registry r;
    auto mk = [](std::string v) { auto e = from_primitive(v); e->meta().set("id", from_primitive(std::string("T"))); return e; };
    must(r.add(mk("1")), "first"); must(!r.add(mk("2")), "second");
    must(*r.find("T") == *mk("1"), "kept");
}
''')
mkseed('missing-mixin-left','C12',[(RF+'ExpandVisitor.cc','''            if (auto referenced = registry.find(symbol)) {
                auto expanded = ExpandOrClone(std::move(referenced));
                MetaIdToRef(*expanded);
                ref->attributes().set("resolved", std::move(expanded));
            }
''','''            auto referenced = registry.find(symbol);
            if (!referenced)
                return ref;

            auto expanded = ExpandOrClone(referenced);
            MetaIdToRef(*expanded);
            ref->attributes().set("resolved", std::move(expanded));
''')],'an unknown type mixed in twice within one expansion','the second mixin of the unknown name raises a circular reference error',EL+r'''
int main() {
    Registry r;
    auto o = make_element<ObjectElement>();
    o->get().push_back(make_element<RefElement>("X")); o->get().push_back(make_element<RefElement>("X"));
    try {
        ExpandVisitor v(r); Visit(v, *o);
        auto e = v.get();
        must(e && *e == *o, "expanded");
    } catch (snowcrash::Error& e) { must(false, e.message.c_str()); }
}
''')
mkseed('attributes-skip-keywords','C13',[(RF+'dsd/Extend.cc','''            InfoMerge<SkipNothing>{}(target.attributes(), append.attributes());
''','''            InfoMerge<SkipMetaKeywords>{}(target.attributes(), append.attributes());
''')],'a later element of the chain with an attribute called id, prefix or namespace','the attribute is not taken over',EL+r'''
int main() {
    auto a = from_primitive(std::string("a")), b = from_primitive(std::string("b"));
    b->attributes().set("namespace", from_primitive(std::string("n")));
    dsd::Extend e; e.push_back(std::move(a)); e.push_back(std::move(b));
    must(e.merge()->attributes().size() == 1, "attribute");
}
''')
