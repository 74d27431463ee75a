import sys; sys.path.insert(0,'/verif/tools'); sys.path.insert(0,'/verif/tools/seeds')
from mkseed import mkseed
from pre import *
UT=['drafter/src/refract/ElementUtils.cc','drafter/src/refract/JsonUtils.cc','drafter/src/utils/so/Value.cc']
mkseed('fixed-option-forgotten','C16',[(RF+'ElementSize.cc','''    return sizeOfMult(e.get().begin(), e.get().end(), inheritsFixed);
}
''','''    // an option fixed by its parent is one value
    cardinal result{ 1 };
    for (const auto& member : e.get()) {
        const auto size = sizeOf(*member, inheritsFixed);
        result = inheritsFixed && finite(size) ? result : result * size;
    }
    return result;
}
''')],'a select in a fixed type whose option has a member of several values (a boolean or enum)','the option is counted as one value',EL+r"""
#include "refract/ElementSize.h"
int main() {
    auto option = make_element<OptionElement>(make_element<MemberElement>("b", make_empty<BooleanElement>()));
    must(sizeOf(static_cast<const IElement&>(*option), true).data() == 2, "a boolean in a fixed option has two values");
}
""",shim=True,srcs=UT)
mkseed('first-default-wins','C17',[(RF+'ElementUtils.cc','''    e.attributes().set("default", std::move(deflt));
''','''    // a default of the same kind is there already: keep it, with the source map it has
    auto it = e.attributes().find("default");
    if (it != e.attributes().end() && !it->second->empty() && it->second->element() == deflt->element())
        return;
    e.attributes().set("default", std::move(deflt));
''')],'a second default of the same kind','the default said last is dropped',EL+r"""
#include "refract/ElementUtils.h"
int main() {
    auto e = make_empty<StringElement>();
    setDefault(*e, from_primitive("a"));
    setDefault(*e, from_primitive("b"));
    auto d = get<const StringElement>(findDefault(*e));
    must(d && d->get().get() == "b", "the default is the last one");
}
""",shim=True,srcs=UT)
mkseed('fold-by-bit','C18',[(AP+'snowcrash/StringUtility.h','''            return std::tolower(a1) == std::tolower(a2);
''','''            return (a1 | 0x20) == (a2 | 0x20); // ASCII letter case is one bit
''')],'names that differ in one of @[\\]^_ against `{|}~DEL, or in a control character','names that differ are taken for the same but for letter case',PRE+r"""
#include "snowcrash/StringUtility.h"
int main() {
    using snowcrash::IEqual;
    must(IEqual<std::string>()("Accept", "ACCEPT"), "letter case");
    must(!IEqual<std::string>()("X_A", "X\x7f" "A"), "underscore and delete");
    must(!IEqual<std::string>()("X^A", "X~A"), "caret and tilde");
}
""",shim=True)
mkseed('unlocked-before-newline','C19',[(DR+'utils/log/Trivial.h','''                std::lock_guard<std::mutex> log_lock_;
''','''                std::unique_lock<std::mutex> log_lock_;
'''),(DR+'utils/log/Trivial.cc','''trivial_entry::~trivial_entry()
{
''','''trivial_entry::~trivial_entry()
{
    log_lock_.unlock(); // ending the line may flush to disk, let others go on
''')],'a thread that starts an entry between the text and the end of line of another one','two entries share a line',PRE+r"""
#define LOGGING
#include "utils/log/Trivial.cc"
#include <chrono>
#include <thread>
struct Buffer : std::streambuf {
    std::string text;
    std::mutex m;
    int overflow(int c) override {
        if (c == '\n')
            std::this_thread::sleep_for(std::chrono::milliseconds(300));
        std::lock_guard<std::mutex> l(m);
        text += static_cast<char>(c);
        return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override {
        if (n == 1 && *s == '\n')
            std::this_thread::sleep_for(std::chrono::milliseconds(300));
        std::lock_guard<std::mutex> l(m);
        text.append(s, n);
        return n;
    }
} b;
int main() {
    ENABLE_LOGGING;
    static_cast<std::ios*>(trivial_log::instance().out())->rdbuf(&b);
    std::thread one([] { LOG(warning) << "first"; });
    std::this_thread::sleep_for(std::chrono::milliseconds(100));
    std::thread two([] { LOG(warning) << "second"; });
    one.join();
    two.join();
    std::string first = b.text.substr(0, b.text.find('\n'));
    must(first.size() > 5 && first.substr(first.size() - 5) == "first", "the first entry is a line");
}
""")
