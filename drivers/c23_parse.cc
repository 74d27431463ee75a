// C23: parsing ends, for any document, with a well-formed result whose source maps are inside of the document.
#include "docs.hpp"

#include "ref_lines.hpp"
#include "snowcrash.h"

using namespace em;

namespace
{
    bool isNumber(const Val& v, unsigned long long& n)
    {
        if (v.kind != Number || !v.has || v.text.empty() || v.text.size() > 9)
            return false;
        for (char c : v.text)
            if (c < '0' || c > '9')
                return false;
        n = std::stoull(v.text);
        return true;
    }

    // characters as the parser counts them: the first byte tells how long one is
    std::size_t characters(const std::string& s)
    {
        std::size_t n = 0;
        for (std::size_t i = 0; i < s.size(); ++n) {
            const unsigned char c = s[i];
            i += c < 0xC0 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
        }
        return n;
    }

    // annotations about data structures count bytes, too (F21)
    bool aboutData(const std::string& text)
    {
        for (auto m : { "invalid value format for 'number' type", "invalid value for 'boolean' type", "Undefined named type '", "no value present when '", "duplicit value in enumeration",
                 "multiple definitions of 'default' value", "multiple variables in property definition", "cannot use '", "only one value is supported for primitive types",
                 "'variable named property' must be string", " is a reserved keyword and cannot be used." })
            if (text.find(m) != std::string::npos)
                return true;
        return false;
    }

    // without white space
    std::string squeezed(const std::string& s)
    {
        std::string o;
        for (char c : s)
            if (!std::isspace(static_cast<unsigned char>(c)))
                o += c;
        return o;
    }

    // without the lines that begin and end blocks of code, and what tells headers apart (underlined ones get it)
    std::string unfenced(const std::string& s)
    {
        std::istringstream in(s);
        std::string o, line;
        while (std::getline(in, line)) {
            std::string l = squeezed(line);
            line.erase(std::remove(line.begin(), line.end(), '#'), line.end());
            if (l.compare(0, 3, "```") != 0 && l.compare(0, 3, "~~~") != 0)
                o += line + "\n";
        }
        return o;
    }

    // source maps of elements count bytes, those of annotations characters
    struct Maps {
        mc::Ctx& ctx;
        const std::string& doc;
        const std::size_t chars;
        const ref::Doc lines;

        bool line(const Val& n, std::size_t line, std::size_t column)
        {
            auto l = docs::at(n.attrs, "line"), c = docs::at(n.attrs, "column");
            return l && c && l->text == std::to_string(line) && c->text == std::to_string(column);
        }

        void operator()(const Val& map, const Val& of)
        {
            const bool annotation = of.name == "annotation";
            const std::size_t size = annotation ? chars : doc.size();
            auto bad = [&](const std::string& what) { ctx.violation(what + ": " + dump(map) + " of " + dump(of)); };
            if (map.kind != Array)
                return bad("a source map that is no list");
            for (auto& m : map.kids) {
                if (m.name != "sourceMap" || m.kind != Array)
                    return bad("a source map of another shape");
                unsigned long long last = 0;
                std::string covered;
                for (auto& r : m.kids) {
                    unsigned long long location, length;
                    if (r.kind != Array || r.kids.size() != 2 || !isNumber(r.kids[0], location) || !isNumber(r.kids[1], length))
                        return bad("a range that is no pair of numbers");
                    if (location + length > size && annotation && m.kids.size() == 1 && length <= doc.size()
                        && of.text.find(" is expected to be a pre-formatted code block, every of its line ") != std::string::npos)
                        ctx.finding("F20", "the range is " + std::to_string(location) + ", " + std::to_string(length) + " of " + std::to_string(size) + " characters");
                    else if (location + length > size && annotation && aboutData(of.text) && location + length <= doc.size())
                        ctx.finding("F21", "the range is " + std::to_string(location) + ", " + std::to_string(length) + " of " + std::to_string(size) + " characters");
                    else if (location + length > size)
                        return bad("a range beyond the end, " + std::to_string(size));
                    // a description that starts on the line of its type has the paragraph's place for each part
                    const bool again = !annotation && std::count_if(m.kids.begin(), m.kids.end(), [&](const Val& o) { return dump(o) == dump(r); }) > 1;
                    if (location < last && !again)
                        return bad("a range before the one it follows");
                    last = location + length;
                    if (!annotation)
                        covered += doc.substr(location, length);
                    if (annotation) {
                        const auto p = ref::expected(lines, mdp::Range(location, length));
                        if (!line(r.kids[0], p.fromLine, p.fromColumn) || !line(r.kids[1], p.toLine, p.toColumn))
                            return bad("a range on other lines or columns");
                    }
                }
                // what is no number or boolean counts as 0 or false
                const bool told = of.kind == String || of.kind == Ref || (of.kind == Number && of.text != "0") || (of.kind == Boolean && of.text != "false");
                if (!annotation && told && of.has && squeezed(covered).find(squeezed(of.text)) == std::string::npos
                    && squeezed(unfenced(covered)).find(squeezed(unfenced(of.text))) == std::string::npos)
                    return bad("a text that is not where its source map says, " + mc::quote(covered));
            }
        }
    };

    bool hasNull(const Val& v)
    {
        if (v.name == "<null pointer>")
            return true;
        for (auto i : { &v.attrs, &v.meta })
            for (auto& e : *i)
                if (hasNull(e.second))
                    return true;
        for (auto& k : v.kids)
            if (hasNull(k))
                return true;
        return false;
    }

    std::string klass(const Val& v)
    {
        auto c = docs::at(v.meta, "classes");
        return c && c->kind == Array && c->kids.size() == 1 && c->kids[0].kind == String ? c->kids[0].text : "";
    }

    void check(mc::Ctx& ctx, const std::string& doc)
    {
        auto p = docs::parse(doc);
        ctx.step();
        ctx.state(doc);
        if (!ctx.expect(p.result != nullptr, "no result"))
            return;
        const Val v = read(*p.result);
        ctx.expect(v.kind == Array && v.name == "parseResult" && v.has, "the result is no parse result");
        unsigned apis = 0, errors = 0, order = 0;
        for (auto& k : v.kids) {
            if (k.name == "category") {
                ++apis;
                ctx.expect(order == 0 && klass(k) == "api", "a category that is no API, or after an annotation");
            } else if (k.name == "annotation") {
                const std::string c = klass(k);
                ctx.expect(c == "error" || c == "warning", "an annotation that is neither error nor warning: " + c);
                ctx.expect(c == "error" ? order == 0 : order <= 2, "an error after a warning");
                order = c == "error" ? 1 : 2;
                errors += c == "error";
                auto code = docs::at(k.attrs, "code");
                unsigned long long n = 0;
                ctx.expect(code && isNumber(*code, n) && n > 0, "an annotation without code");
                ctx.expect(c != "error" || static_cast<int>(n) == p.code, "the error's code is not what is returned");
                ctx.expect(c != "error" || n != 1, "an internal error: " + k.text);
                ctx.expect(k.kind == String && k.has && !k.text.empty(), "an annotation without text");
                auto map = docs::at(k.attrs, "sourceMap");
                ctx.count(map && map->kind == Array && !map->kids.empty() ? "annotations with a place" : "annotations without a place");
            } else
                ctx.violation("a parse result holds a " + k.name);
        }
        ctx.expect(errors == (p.code ? 1u : 0u), std::to_string(errors) + " errors, returned " + std::to_string(p.code));
        ctx.expect(p.code ? apis <= 1 : apis == 1, std::to_string(apis) + " APIs");
        if (hasNull(v))
            ctx.violation("an entry that is missing: " + dump(v));
        Maps maps{ ctx, doc, characters(doc), ref::make(doc) };
        docs::sourceMaps(v, maps);
        ctx.outcome(dump(v));
        ctx.trace();
    }
}

SCENARIO("lines", 16)
{
    docs::each(ctx, ctx.thorough ? 3 : 2, [&](const std::string& d) { check(ctx, d); });
}

SCENARIO("blocks", 16)
{
    // lines that stand for themselves, with blank ones in between
    std::vector<std::string> vocabulary;
    for (auto& l : docs::lines())
        if (!l.empty())
            vocabulary.push_back("\n" + l);
    const auto& c = docs::contexts();
    docs::each(ctx, ctx.thorough ? 3 : 2, [&](const std::string& d) { check(ctx, d); },
        ctx.thorough ? c : std::vector<std::string>{ "", c[3], c[4], c[6] }, vocabulary);
}

SCENARIO("unfinished", 8)
{
    // every document of one line in every context, cut at every character, and without its last newline
    std::uint64_t n = 0;
    for (auto& c : docs::contexts())
        for (auto& l : docs::lines()) {
            const std::string whole = c + l;
            for (std::size_t end = c.size(); end <= whole.size(); ++end) {
                ++n;
                if (!ctx.mine() || ctx.full())
                    continue;
                const std::string doc = whole.substr(0, end);
                auto describe = [&] { return mc::quote(doc); };
                if (ctx.beginN(n, describe))
                    check(ctx, doc);
            }
        }
}

// every document of the fixtures with one or two edits
SCENARIO("edits", 16)
{
    docs::edits(ctx, ctx.thorough ? 100000 : 150, 1024, ctx.thorough, [&](const std::string& d) { check(ctx, d); });
}

MC_MAIN
