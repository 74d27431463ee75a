// C04: lines and columns of character ranges, and the report printed from them.
#include "mc.hpp"
#include "ref_lines.hpp"
#include "SourceMapUtils.h"
#include "reporting.h"
#include "refract/Element.h"
#include "refract/dsd/Array.h"
#include "refract/dsd/Number.h"
#include "refract/dsd/String.h"

using namespace drafter;
using namespace refract;
using ref::Doc;
using ref::expected;
using ref::make;

const int snowcrash::SourceAnnotation::OK = 0; // defined in a part of the parser that is not linked here

namespace
{
    std::string show(const AnnotationPosition& a)
    {
        return "line " + std::to_string(a.fromLine) + ", column " + std::to_string(a.fromColumn) + " - line "
            + std::to_string(a.toLine) + ", column " + std::to_string(a.toColumn);
    }

    struct Capture {
        std::ostringstream out;
        std::streambuf* old;
        Capture() : old(std::cerr.rdbuf(out.rdbuf())) {}
        ~Capture()
        {
            std::cerr.rdbuf(old);
        }
    };

    void check(mc::Ctx& ctx, const std::string& s)
    {
        const Doc d = make(s);
        if (!ctx.begin("document " + mc::quote(s)))
            return;
        const auto index = GetLinesEndIndex(s);
        NewLinesIndex want{ 0 };
        for (std::size_t i = 0; i < d.newline.size(); ++i)
            if (d.newline[i])
                want.push_back(i + 1);
        ctx.step();
        if (!ctx.expect(index == want, "the ends of " + std::to_string(index.size() - 1) + " lines are found, or not "
                                                                                          "where they are"))
            return;
        const std::size_t n = d.newline.size();
        std::string shape;
        for (std::size_t loc = 0; loc <= n + 1; ++loc)
            for (std::size_t len = 0; loc + len <= n + 2; ++len) {
                const mdp::Range r(loc, len);
                const std::string got = show(GetLineFromMap(index, r)), exp = show(expected(d, r));
                ctx.step();
                if (!ctx.expect(got == exp, "characters " + std::to_string(loc) + ":" + std::to_string(len) + " are "
                            + got + ", expected " + exp))
                    return;
                ctx.outcome(got);
            }
        ctx.state(s);
        ctx.trace();
        ctx.sample("document " + mc::quote(s));
    }
}

SCENARIO("documents", 8)
{
    const std::vector<std::string> alphabet{ "a", "\n", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x90\x8D\x88", "\r" };
    const unsigned maxLen = ctx.thorough ? 7 : 6;
    for (unsigned len = 0; len <= maxLen; ++len) {
        std::vector<unsigned> pick(len, 0);
        for (;;) {
            if (ctx.full())
                return;
            if (ctx.mine()) {
                std::string s;
                for (unsigned p : pick)
                    s += alphabet[p];
                check(ctx, s);
            }
            unsigned i = 0;
            while (i < len && ++pick[i] == alphabet.size())
                pick[i++] = 0;
            if (i == len)
                break;
        }
    }
}

SCENARIO("characters", 4)
{
    // every code point: one character, and a line break only if it is one
    for (std::uint32_t block = 0; block < 0x1100; ++block) {
        if (!ctx.mine() || ctx.full())
            continue;
        char name[32];
        std::snprintf(name, sizeof name, "code points U+%04Xxx", block);
        if (!ctx.begin(name))
            continue;
        for (std::uint32_t cp = block << 8; cp < (block + 1) << 8; ++cp) {
            if (cp >= 0xD800 && cp <= 0xDFFF)
                continue;
            const std::string s = "x" + ref::encode(cp) + "y\nz";
            NewLinesIndex want{ 0, 4 };
            if (cp == '\n')
                want = NewLinesIndex{ 0, 2, 4 };
            ctx.step();
            if (!ctx.expect(GetLinesEndIndex(s) == want, "line ends of " + mc::quote(s)))
                return;
        }
        ctx.state(name);
        ctx.trace();
    }
}

SCENARIO("malformed", 4)
{
    const std::vector<std::string> alphabet{ "a", "\n", "\x80", "\xC3", "\xE2", "\xF0", "\xFF" };
    for (unsigned len = 1; len <= 5; ++len) {
        std::vector<unsigned> pick(len, 0);
        for (;;) {
            if (ctx.full())
                return;
            if (ctx.mine()) {
                std::string s;
                for (unsigned p : pick)
                    s += alphabet[p];
                check(ctx, s);
            }
            unsigned i = 0;
            while (i < len && ++pick[i] == alphabet.size())
                pick[i++] = 0;
            if (i == len)
                break;
        }
    }
}

SCENARIO("many-lines", 4)
{
    // so many lines, of every form of length: each line's beginning and end, from line to line and beyond the end
    for (std::size_t n : { 5, 9, 10, 11, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1025, 4097, 10001, 70000 })
        for (int form = 0; form < 5; ++form) {
            if (!ctx.mine() || ctx.full() || !ctx.begin(std::to_string(n) + " lines of form " + std::to_string(form)))
                continue;
            std::string s;
            std::vector<std::size_t> begins, lengths; // of lines, in characters
            std::size_t at = 0;
            for (std::size_t i = 0; i < n; ++i) {
                const std::size_t l = form == 0 ? 0 : form == 1 ? 1 : form == 2 ? i % 5 : form == 3 ? (i + 1 == n ? 3000 : i % 2) : (i ? 2 : 3000);
                begins.push_back(at);
                lengths.push_back(l);
                for (std::size_t j = 0; j < l; ++j)
                    s += (i + j) % 3 ? "x" : "\xE2\x82\xAC";
                s += "\n";
                at += l + 1;
            }
            const auto index = GetLinesEndIndex(s);
            NewLinesIndex want{ 0 };
            for (std::size_t i = 0; i < n; ++i)
                want.push_back(begins[i] + lengths[i] + 1);
            ctx.expect(index == want, "the ends of " + std::to_string(index.size() - 1) + " lines are found, or not where they are");
            const std::size_t step = n < 300 ? 1 : n / 200;
            for (std::size_t i = 0; i < n; i += i + step + 2 >= n ? 1 : step)
                for (std::size_t to : { i, std::min(i + 1, n - 1), std::min(i + 40, n - 1), n - 1 }) {
                    // from the first character of line i to the newline of line `to`
                    const std::size_t len = begins[to] + lengths[to] + 1 - begins[i];
                    AnnotationPosition a;
                    a.fromLine = i + 1;
                    a.fromColumn = 1;
                    a.toLine = to + 1;
                    a.toColumn = lengths[to] + 1;
                    const std::string got = show(GetLineFromMap(index, mdp::Range(begins[i], len)));
                    ctx.expect(got == show(a), "lines " + std::to_string(i + 1) + " to " + std::to_string(to + 1) + " are " + got);
                    // from its last to the first of the other
                    a.fromColumn = lengths[i] + 1;
                    if (to > i) {
                        a.toLine = to;
                        a.toColumn = lengths[to - 1] + 1;
                        const std::string got = show(GetLineFromMap(index, mdp::Range(begins[i] + lengths[i], begins[to] - begins[i] - lengths[i])));
                        ctx.expect(got == show(a), "the end of line " + std::to_string(i + 1) + " to before " + std::to_string(to + 1) + " is " + got);
                    }
                    ctx.step(2);
                }
            ctx.state(std::to_string(n) + "/" + std::to_string(form));
            ctx.trace();
        }
}

SCENARIO("long-lines", 2)
{
    // documents of up to four lines, of every combination of lengths
    const std::vector<std::size_t> lengths{ 0, 1, 2, 7, 9, 10, 11, 99, 130 };
    for (std::size_t a : lengths)
        for (std::size_t b : lengths)
            for (std::size_t c : lengths)
                for (int mode = 0; mode < 2; ++mode) {
                    if (!ctx.mine() || ctx.full())
                        continue;
                    std::string s;
                    for (std::size_t l : { a, b, c }) {
                        for (std::size_t i = 0; i < l; ++i)
                            s += i % 3 ? "x" : "\xC3\xA9";
                        s += "\n";
                    }
                    if (mode)
                        s.pop_back();
                    const Doc d = make(s);
                    if (!ctx.begin("lines of " + std::to_string(a) + ", " + std::to_string(b) + ", " + std::to_string(c)
                            + (mode ? ", the last one not terminated" : "")))
                        continue;
                    const auto index = GetLinesEndIndex(s);
                    for (std::size_t loc = 0; loc <= d.newline.size(); ++loc)
                        for (std::size_t len : { std::size_t(0), std::size_t(1), std::size_t(2), a, a + 1, b + 1, c + 1,
                                 a + b + 2, d.newline.size() - loc }) {
                            const mdp::Range r(loc, len);
                            const std::string got = show(GetLineFromMap(index, r)), exp = show(expected(d, r));
                            ctx.step();
                            if (!ctx.expect(got == exp, "characters " + std::to_string(loc) + ":" + std::to_string(len)
                                        + " are " + got + ", expected " + exp))
                                break;
                            ctx.outcome(got);
                        }
                    ctx.state(s);
                    ctx.trace();
                }
}

SCENARIO("printed-reports", 4)
{
    // the report of a parse, as lines on the standard error stream: one line for each annotation, in order, with all of
    // its ranges, as characters or as lines and columns
    const std::vector<std::string> docs{ "abc\n", "a\n\nb\n", "\xC3\xA9\n\xE2\x82\xAC\xE2\x82\xAC\nxyz" };
    std::vector<std::vector<mdp::Range> > sets{ {}, { { 0, 2 } }, { { 2, 1 } }, { { 0, 1 }, { 2, 2 } }, { { 1, 4 } },
        { { 0, 4 }, { 1, 1 }, { 3, 1 } } };
    for (auto& doc : docs)
        for (int code : { 0, 1, 4 })
            for (auto& errorAt : sets)
                for (std::size_t w1 = 0; w1 <= sets.size(); ++w1)
                    for (std::size_t w2 = 0; w2 <= sets.size(); ++w2)
                        for (int lines = 0; lines < 2; ++lines) {
                            if (!ctx.mine() || ctx.full())
                                continue;
                            const Doc d = make(doc);
                            auto text = [&](const std::vector<mdp::Range>& rs) {
                                std::string o;
                                bool first = true;
                                for (auto& r : rs) {
                                    if (lines)
                                        o += "; " + show(expected(d, r));
                                    else
                                        o += (first ? " :" : ";") + std::to_string(r.location) + ":"
                                            + std::to_string(r.length);
                                    first = false;
                                }
                                return o;
                            };
                            snowcrash::Report report;
                            std::string exp = "\n";
                            auto set = [&](const std::vector<mdp::Range>& rs) {
                                mdp::CharactersRangeSet o;
                                for (auto& r : rs)
                                    o.push_back(r);
                                return o;
                            };
                            report.error.code = code;
                            if (code) {
                                report.error.message = "broken";
                                report.error.location = set(errorAt);
                                exp += "error: (" + std::to_string(code) + ")  broken" + text(errorAt) + "\n";
                            } else
                                exp += "OK.\n";
                            for (std::size_t w : { w1, w2 })
                                if (w < sets.size()) {
                                    snowcrash::Warning warning("odd", 7, set(sets[w]));
                                    report.warnings.push_back(warning);
                                    exp += "warning: (7)  odd" + text(sets[w]) + "\n";
                                }
                            auto id = "report on " + mc::quote(doc) + " expected as " + mc::quote(exp);
                            if (!ctx.begin(id))
                                continue;
                            Capture c;
                            PrintReport(report, doc, lines != 0);
                            ctx.step();
                            ctx.expect(c.out.str() == exp, "printed " + mc::quote(c.out.str()));
                            ctx.outcome(exp);
                            ctx.state(exp);
                            ctx.trace();
                            ctx.sample(id);
                        }
}

namespace
{
    // an annotation as the parse result holds it
    std::unique_ptr<IElement> annotation(
        const std::string& kind, int code, const std::string& message, const std::vector<mdp::Range>& ranges)
    {
        auto e = make_element<StringElement>(dsd::String(message));
        e->element("annotation");
        if (!kind.empty()) {
            auto classes = make_element<ArrayElement>();
            classes->get().push_back(from_primitive(kind));
            e->meta().set("classes", std::move(classes));
        }
        if (code >= 0)
            e->attributes().set("code", make_element<NumberElement>(dsd::Number(static_cast<std::int64_t>(code))));
        auto map = make_element<ArrayElement>();
        map->element("sourceMap");
        for (auto& r : ranges) {
            auto pair = make_element<ArrayElement>();
            pair->get().push_back(
                make_element<NumberElement>(dsd::Number(static_cast<std::int64_t>(r.location))));
            pair->get().push_back(make_element<NumberElement>(dsd::Number(static_cast<std::int64_t>(r.length))));
            map->get().push_back(std::move(pair));
        }
        auto outer = make_element<ArrayElement>();
        outer->get().push_back(std::move(map));
        e->attributes().set("sourceMap", std::move(outer));
        return std::move(e);
    }
}

SCENARIO("printed-results", 4)
{
    // the same for the annotations among the children of a parse result
    const std::vector<std::string> docs{ "a\n\nb\n", "\xC3\xA9\n\xE2\x82\xAC\xE2\x82\xAC\nxyz" };
    std::vector<std::vector<mdp::Range> > sets{ {}, { { 0, 2 } }, { { 2, 1 } }, { { 0, 1 }, { 2, 2 } },
        { { 0, 4 }, { 1, 1 }, { 3, 1 } } };
    struct A {
        const char* kind;
        int code;
        std::size_t set;
    };
    std::vector<A> as;
    for (auto kind : { "warning", "error", "" })
        for (int code : { -1, 0, 4, 17 })
            for (std::size_t s = 0; s < sets.size(); ++s)
                as.push_back(A{ kind, code, s });
    for (auto& doc : docs)
        for (int lines = 0; lines < 2; ++lines)
            for (int error = 0; error < 2; ++error)
                for (std::size_t i = 0; i <= as.size(); ++i)
                    for (std::size_t j = i ? 0 : as.size(); j <= as.size(); ++j) {
                        if (!ctx.mine() || ctx.full())
                            continue;
                        const Doc d = make(doc);
                        auto result = make_element<ArrayElement>();
                        result->element("parseResult");
                        result->get().push_back(from_primitive("annotation"));
                        std::string exp = error ? "\n" : "\nOK.\n";
                        for (std::size_t k : { i, j }) {
                            if (k >= as.size())
                                continue;
                            auto& a = as[k];
                            result->get().push_back(annotation(a.kind, a.code, "message", sets[a.set]));
                            if (*a.kind)
                                exp += std::string(a.kind) + ": ";
                            if (a.code >= 0)
                                exp += "(" + std::to_string(a.code) + ")  ";
                            exp += "message";
                            bool first = true;
                            for (auto& r : sets[a.set]) {
                                if (lines)
                                    exp += "; " + show(expected(d, r));
                                else
                                    exp += (first ? " :" : ";") + std::to_string(r.location) + ":"
                                        + std::to_string(r.length);
                                first = false;
                            }
                            exp += "\n";
                        }
                        auto id = "result on " + mc::quote(doc) + " expected as " + mc::quote(exp);
                        if (!ctx.begin(id))
                            continue;
                        Capture c;
                        PrintReport(result.get(), doc, lines != 0, error);
                        ctx.step();
                        ctx.expect(c.out.str() == exp, "printed " + mc::quote(c.out.str()));
                        ctx.outcome(exp);
                        ctx.state(exp);
                        ctx.trace();
                        ctx.sample(id);
                    }
}

MC_MAIN
