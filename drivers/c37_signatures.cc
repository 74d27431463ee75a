// C37: the line of a member, taken apart into name, values, attributes and description; and the types it names.
#include "docs.hpp"

#include "snowcrash.h"
#include "SignatureSectionProcessor.h"
#include "MSONUtility.h"

using scpl::Signature;
using scpl::SignatureTraits;

namespace
{
    using Strings = std::vector<std::string>;

    bool blank(char c)
    {
        return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f';
    }
    std::string trim(const std::string& s)
    {
        std::size_t a = 0, b = s.size();
        while (a < b && blank(s[a]))
            ++a;
        while (b > a && blank(s[b - 1]))
            --b;
        return s.substr(a, b - a);
    }

    // the end of what is escaped from i on: up to the next run as long as the one at i; i if nothing ends it
    std::size_t escaped(const std::string& s, std::size_t i)
    {
        std::size_t n = 0;
        while (i + n < s.size() && s[i + n] == s[i])
            ++n;
        const std::size_t e = s.find(std::string(n, s[i]), i + n);
        return e == std::string::npos ? i : e + n;
    }
    // without the backticks around all of it
    std::string bare(const std::string& s)
    {
        if (s.empty() || s[0] != '`' || s.back() != '`')
            return s;
        std::size_t n = 0;
        while (n < s.size() && s[n] == '`')
            ++n;
        const std::size_t e = s.find(std::string(n, '`'), n);
        if (e == std::string::npos || e == n)
            return s;
        return trim(s.substr(n, e - n));
    }

    struct Want {
        std::string name, value, content;
        Strings values, attributes, remarks;
        bool closed = true; // the parentheses of the attributes are
    };

    // the end of a nested bracket that opens at i; size() if it does not close
    std::size_t nested(const std::string& s, std::size_t i, bool& closed)
    {
        const char end = s[i] == '(' ? ')' : ']';
        for (++i; i < s.size();) {
            if (s[i] == '`') {
                const std::size_t e = escaped(s, i);
                i = e == i ? i + 1 : e;
            } else if (s[i] == '(' || s[i] == '[')
                i = nested(s, i, closed);
            else if (s[i++] == end)
                return i;
        }
        closed = false;
        return i;
    }

    Want reference(const std::string& line, unsigned traits)
    {
        const bool names = traits & SignatureTraits::IdentifierTrait, values = traits & SignatureTraits::ValuesTrait,
                   attributes = traits & SignatureTraits::AttributesTrait, content = traits & SignatureTraits::ContentTrait;
        Want w;
        const std::string s = trim(line);
        std::size_t i = 0;
        auto space = [&]() {
            while (i < s.size() && blank(s[i]))
                ++i;
        };
        if (names && i < s.size()) {
            while (i < s.size() && !(values && s[i] == ':') && !(attributes && s[i] == '(') && !(content && s[i] == '-')) {
                const std::size_t e = s[i] == '*' || s[i] == '_' || s[i] == '`' ? escaped(s, i) : i;
                i = e == i ? i + 1 : e;
            }
            w.name = trim(s.substr(0, i));
            if (w.name.empty())
                w.remarks.push_back("no identifier specified");
        }
        if (values && i < s.size() && s[i] != '(' && (!names || s[i] == ':')) {
            if (names)
                ++i;
            space();
            const std::size_t from = i;
            std::size_t start = i;
            while (i < s.size() && !(attributes && s[i] == '(') && !(content && s[i] == '-')) {
                const std::size_t e = s[i] == '`' ? escaped(s, i) : i;
                if (e == i && s[i] == ',') {
                    w.values.push_back(bare(trim(s.substr(start, i - start))));
                    ++i;
                    space();
                    start = i;
                } else
                    i = e == i ? i + 1 : e;
            }
            if (!trim(s.substr(start, i - start)).empty())
                w.values.push_back(trim(s.substr(start, i - start)));
            w.value = bare(trim(s.substr(from, i - from)));
            if (w.values.empty())
                w.remarks.push_back("no value(s) specified");
        }
        if (attributes && i < s.size() && s[i] == '(') {
            std::size_t start = ++i;
            auto take = [&]() {
                if (!trim(s.substr(start, i - start)).empty())
                    w.attributes.push_back(trim(s.substr(start, i - start)));
            };
            for (w.closed = false; i < s.size() && !w.closed;) {
                if (s[i] == '`') {
                    const std::size_t e = escaped(s, i);
                    i = e == i ? i + 1 : e;
                } else if (s[i] == '(' || s[i] == '[') {
                    bool closed = true;
                    i = nested(s, i, closed);
                    if (!closed)
                        break;
                } else if (s[i] == ',' || s[i] == ')') {
                    take();
                    w.closed = s[i] == ')';
                    start = ++i;
                } else
                    ++i;
            }
            space();
        }
        if (w.closed && content && i < s.size() && s[i] == '-')
            w.content = trim(s.substr(i + 1));
        return w;
    }

    std::string list(const Strings& v)
    {
        std::string o;
        for (auto& x : v)
            o += (o.empty() ? "" : ", ") + mc::quote(x);
        return "[" + o + "]";
    }

    struct Parser {
        snowcrash::ParseResult<snowcrash::Blueprint> blueprint;
        snowcrash::SectionParserData pd{ 0, "source", blueprint.node };
        mdp::MarkdownNode root{ mdp::RootMarkdownNodeType, NULL, "" };

        Parser()
        {
            mdp::MarkdownNode paragraph(mdp::ParagraphMarkdownNodeType, &root, "");
            paragraph.sourceMap.push_back(mdp::BytesRange(0, 6));
            root.children().push_back(paragraph);
        }
        Signature parse(const std::string& text, unsigned traits, snowcrash::Report& report)
        {
            root.children().front().text = text;
            return scpl::SignatureSectionProcessorBase<snowcrash::Blueprint>::parseSignature(
                root.children().begin(), pd, SignatureTraits(traits), report);
        }
    };

    const unsigned N = SignatureTraits::IdentifierTrait, V = SignatureTraits::ValuesTrait, A = SignatureTraits::AttributesTrait,
                   C = SignatureTraits::ContentTrait;
    const unsigned Traits[] = { N | V | A | C, V | A | C, N | A, N | V, N, V | A };
    const char* Kinds[] = { "a property", "an item", "a type", "a section", "a choice", "a variable" };

    void decide(mc::Ctx& ctx, Parser& parser, const std::string& line, std::uint64_t id)
    {
        for (std::size_t k = 0; k < 6; ++k) {
            auto describe = [&]() { return mc::quote(line) + " as " + Kinds[k]; };
            if (!ctx.beginN(id * 6 + k, describe))
                continue;
            const Want w = reference(line, Traits[k]);
            snowcrash::Report report;
            const Signature s = parser.parse(line + "\nmore", Traits[k], report);
            ctx.step();
            ctx.expect(s.identifier == w.name, "has the name " + mc::quote(s.identifier) + ", expected " + mc::quote(w.name));
            ctx.expect(s.values == w.values, "has the values " + list(s.values) + ", expected " + list(w.values));
            ctx.expect(s.value == w.value, "has the value " + mc::quote(s.value) + ", expected " + mc::quote(w.value));
            ctx.expect(trim(line).empty() || s.remainingContent == "more", "leaves " + mc::quote(s.remainingContent) + " of the lines after it");
            if (w.closed) { // else what is made of the rest is not specified
                ctx.expect(s.attributes == w.attributes, "has the attributes " + list(s.attributes) + ", expected " + list(w.attributes));
                ctx.expect(s.content == w.content, "has the description " + mc::quote(s.content) + ", expected " + mc::quote(w.content));
                ctx.trace();
            }
            Strings remarks;
            for (auto& r : report.warnings)
                remarks.push_back(r.message);
            ctx.expect(remarks == w.remarks && report.error.code == snowcrash::Error::OK, "is remarked on with " + list(remarks) + ", expected " + list(w.remarks));
            ctx.outcome(w.name + "|" + w.value + "|" + list(w.attributes) + w.content);
        }
        ctx.state(line);
    }

    void all(mc::Ctx& ctx, const Strings& letters, std::size_t longest)
    {
        Parser parser;
        std::uint64_t id = 0;
        std::vector<std::size_t> at;
        for (std::size_t n = 1; n <= longest; ++n) {
            at.assign(n, 0);
            for (;;) {
                ++id;
                if (ctx.mine()) {
                    std::string t;
                    for (auto i : at)
                        t += letters[i];
                    decide(ctx, parser, t, id);
                    if (ctx.full())
                        return;
                }
                std::size_t k = 0;
                while (k < n && ++at[k] == letters.size())
                    at[k++] = 0;
                if (k == n)
                    break;
            }
        }
    }
}

SCENARIO("lines", 8)
{
    all(ctx, { "a", ":", ",", "(", ")", "[", "]", "-", "`", "*", " " }, ctx.thorough ? 7 : 5);
}

SCENARIO("quotes", 8)
{
    all(ctx, { "a", "`", "*", "_", ":", ",", "(b)" }, ctx.thorough ? 8 : 7);
}

SCENARIO("parts", 8)
{
    all(ctx, { "name", ": ", "1", ", ", " (", "array[A, B]", "[L](http://u/(v)-w)", ")", " - ", "``x`, (y`` ", "*rel (T)*", "`a:b`", "\xC3\xA9\t", "~" }, ctx.thorough ? 6 : 5);
}

namespace
{
    struct Name {
        std::string text, base, symbol; // base: a number of MSON's base types, else a symbol
        bool variable;
    };
    std::string show(const mson::TypeName& t)
    {
        return std::to_string(t.base) + " " + mc::quote(t.symbol.literal) + (t.symbol.variable ? " variable" : "");
    }
    std::string show(const Name& n)
    {
        mson::TypeName t;
        if (n.base == "string")
            t.base = mson::StringTypeName;
        else if (n.base == "number")
            t.base = mson::NumberTypeName;
        else if (n.base == "boolean")
            t.base = mson::BooleanTypeName;
        else if (n.base == "array")
            t.base = mson::ArrayTypeName;
        else if (n.base == "enum")
            t.base = mson::EnumTypeName;
        else if (n.base == "object")
            t.base = mson::ObjectTypeName;
        t.symbol.literal = n.symbol;
        t.symbol.variable = n.variable;
        return show(t);
    }
}

// what a type says: its name and the types nested in it, each plain, escaped, variable or a link
SCENARIO("types", 8)
{
    const std::vector<Name> names{ { "string", "string", "", false }, { "number", "number", "", false }, { "boolean", "boolean", "", false },
        { "array", "array", "", false }, { "enum", "enum", "", false }, { "object", "object", "", false }, { "A", "", "A", false }, { "A b-c", "", "A b-c", false },
        { "String", "", "String", false }, { "`a b`", "", "a b", false }, { "``a`, b[c]``", "", "a`, b[c]", false }, { "*T*", "", "T", true }, { "_T u_", "", "T u", true }, { "*", "", "", true },
        { "\xC3\xA9", "", "\xC3\xA9", false }, { "arrays", "", "arrays", false } };
    std::vector<Name> outer = names, inner = names;
    for (auto& n : names)
        if (n.text != "*" && n.text[0] != '`') {
            Name l = n;
            l.text = "[" + n.text + "](http://x.y/z)";
            inner.push_back(l);
            l.text = "[" + n.text + "][]";
            inner.push_back(l);
        }
    const Strings opens{ "[", " [ ", "[ " }, commas{ ",", " , ", ", " }, closes{ "]", " ]" };
    std::uint64_t id = 0;
    auto one = [&](const std::string& text, const Name& name, const std::vector<const Name*>& kids) {
        ++id;
        if (!ctx.mine() || ctx.full())
            return;
        auto describe = [&]() { return "the type " + mc::quote(text); };
        if (!ctx.beginN(id, describe))
            return;
        mson::TypeSpecification t;
        mson::parseTypeSpecification(text, t);
        ctx.step();
        ctx.trace();
        ctx.state(text);
        std::string got = show(t.name), want = show(name);
        for (auto& n : t.nestedTypes)
            got += ", " + show(n);
        for (auto n : kids)
            want += ", " + show(*n);
        ctx.outcome(want);
        ctx.expect(got == want, "is taken for " + got + ", expected " + want);
    };
    const Name none{ "", "", "", false };
    for (auto& n : inner)
        one(n.text, n, {});
    for (auto& o : outer)
        for (auto& open : opens)
            for (auto& close : closes) {
                for (auto& a : inner) {
                    one(o.text + open + a.text + close, o, { &a });
                    for (auto& comma : commas)
                        for (auto& b : inner) {
                            one(o.text + open + a.text + comma + b.text + close, o, { &a, &b });
                            if (ctx.thorough || (o.text == "array" && open == "["))
                                for (auto& c : inner)
                                    one(o.text + open + a.text + comma + b.text + comma + c.text + close, o, { &a, &b, &c });
                        }
                }
            }
}

// names of properties and values, plain, escaped or variable
SCENARIO("values", 4)
{
    struct Text {
        std::string text, literal;
        bool variable;
    };
    std::vector<Text> all;
    for (std::string x : { "a", "a b", "1", "\xC3\xA9", "a:b", "(x)", "a,b", "-1", "x - y", "@", "http://x/y#z", "a\"b", "''", "%20" }) {
        all.push_back({ x, x, false });
        for (std::string q : { "`", "``", "```" }) {
            all.push_back({ q + x + q, x, false });
            all.push_back({ q + " " + x + " " + q, x, false });
            if (q.size() > 1)
                all.push_back({ q + x + "`" + x + q, x + "`" + x, false });
            all.push_back({ q + "*" + x + "*" + q, "*" + x + "*", false });
        }
        for (std::string q : { "*", "_", "**", "__" })
            all.push_back({ q + x + q, x, true });
        for (std::string q : { "*", "_", "**", "__", "`" }) {
            all.push_back({ q + x, q + x, false });
            all.push_back({ x + q, x + q, false });
        }
    }
    all.push_back({ "*", "", true });
    all.push_back({ "`*`", "", true });
    Parser parser;
    auto show = [](const std::string& l, bool v) { return mc::quote(l) + (v ? " variable" : ""); };
    for (auto& t : all) {
        if (!ctx.mine() || ctx.full())
            continue;
        if (!ctx.begin("the value " + mc::quote(t.text)))
            continue;
        const mson::Value v = mson::parseValue(t.text);
        const mson::Symbol y = mson::parseSymbol(t.text);
        ctx.step(2);
        ctx.trace();
        ctx.state(t.text);
        ctx.outcome(show(t.literal, t.variable));
        ctx.expect(v.literal == t.literal && v.variable == t.variable, "is " + show(v.literal, v.variable) + ", expected " + show(t.literal, t.variable));
        ctx.expect(y.literal == t.literal && y.variable == t.variable, "as a symbol is " + show(y.literal, y.variable) + ", expected " + show(t.literal, t.variable));
    }
    // the names of properties: a literal, or a value and a type between marks of emphasis
    for (auto& t : all)
        for (std::string type : { "", " (number)", "(A)", " (array[B], required)" })
            for (std::string q : { "*", "_", "**" }) {
                const bool plain = !t.variable && t.text.find_first_of("*_`,(-:") == std::string::npos;
                if (!plain || !ctx.mine() || ctx.full())
                    continue;
                const std::string text = q + t.text + type + q;
                if (!ctx.begin("the name " + mc::quote(text)))
                    continue;
                snowcrash::Report report;
                mson::PropertyName n;
                for (auto name : { "A", "B" })
                    parser.pd.namedTypeBaseTable[name] = mson::ObjectBaseType;
                mson::parsePropertyName(parser.root.children().begin(), parser.pd, text, report, n);
                ctx.step();
                ctx.trace();
                ctx.state(text);
                const auto& d = n.variable.typeDefinition;
                ctx.expect(n.literal.empty(), "has the literal " + mc::quote(n.literal));
                ctx.expect(n.variable.values.size() == 1 && n.variable.values[0].literal == t.text && !n.variable.values[0].variable,
                    "has " + std::to_string(n.variable.values.size()) + " values" + (n.variable.values.empty() ? "" : ", " + mc::quote(n.variable.values[0].literal)));
                const auto& s = d.typeSpecification;
                ctx.expect(s.name.base == (type == " (number)" ? mson::NumberTypeName : type == " (array[B], required)" ? mson::ArrayTypeName : mson::UndefinedTypeName)
                        && s.name.symbol.literal == (type == "(A)" ? "A" : "") && s.nestedTypes.size() == (type.size() > 10 ? 1 : 0)
                        && d.attributes == (type.size() > 10 ? mson::RequiredTypeAttribute : 0),
                    "has another type");
                ctx.expect(report.warnings.empty() && report.error.code == snowcrash::Error::OK, "is remarked on");
            }
    for (auto& t : all) {
        if (t.variable || !ctx.mine() || ctx.full())
            continue;
        if (!ctx.begin("the name " + mc::quote(t.text)))
            continue;
        snowcrash::Report report;
        mson::PropertyName n;
        mson::parsePropertyName(parser.root.children().begin(), parser.pd, t.text, report, n);
        ctx.step();
        ctx.trace();
        ctx.expect(n.literal == t.literal && n.variable.empty() && report.warnings.empty(), "is " + mc::quote(n.literal) + ", expected " + mc::quote(t.literal));
    }
}

// what the attributes of a definition say, in every order
SCENARIO("definitions", 8)
{
    const Strings words{ "required", "optional", "fixed", "sample", "default", "nullable", "fixed-type", "A", "B", "array[A]", "string", "`required`" };
    const unsigned flags[] = { mson::RequiredTypeAttribute, mson::OptionalTypeAttribute, mson::FixedTypeAttribute, mson::SampleTypeAttribute,
        mson::DefaultTypeAttribute, mson::NullableTypeAttribute, mson::FixedTypeTypeAttribute };
    Parser parser;
    parser.pd.namedTypeBaseTable["A"] = mson::ObjectBaseType;
    parser.pd.namedTypeBaseTable["B"] = mson::ValueBaseType;
    parser.pd.namedTypeContext = "context";
    parser.pd.namedTypeDependencyTable["required"];
    parser.pd.namedTypeDependencyTable["context"];
    std::uint64_t id = 0;
    std::vector<std::size_t> at;
    const std::size_t longest = ctx.thorough ? 6 : 4;
    for (std::size_t n = 0; n <= longest; ++n) {
        at.assign(n, 0);
        for (;;) {
            ++id;
            if (ctx.mine() && !ctx.full()) {
                Strings list;
                for (auto i : at)
                    list.push_back(words[i]);
                auto describe = [&]() { return "the attributes " + ::list(list); };
                if (ctx.beginN(id, describe)) {
                    snowcrash::Report report;
                    mson::TypeDefinition d;
                    mson::parseTypeDefinition(parser.root.children().begin(), parser.pd, list, report, d);
                    ctx.step();
                    ctx.trace();
                    ctx.state(::list(list));
                    unsigned want = 0;
                    std::size_t ignored = 0;
                    std::string type;
                    for (auto i : at)
                        if (i < 7)
                            want |= flags[i];
                        else if (type.empty())
                            type = words[i];
                        else
                            ++ignored;
                    const auto& s = d.typeSpecification;
                    const mson::BaseType base = type == "A" ? mson::ObjectBaseType : type == "B" || type == "array[A]" ? mson::ValueBaseType
                        : type == "string"                                                                            ? mson::PrimitiveBaseType
                                                                                                                      : mson::UndefinedBaseType;
                    ctx.expect(d.attributes == want, "sets " + std::to_string(d.attributes) + ", expected " + std::to_string(want));
                    ctx.expect(d.baseType == base, "has the base " + std::to_string(d.baseType) + ", expected " + std::to_string(base));
                    ctx.expect(s.name.symbol.literal == (type == "A" || type == "B" ? type : type == "`required`" ? "required" : "")
                            && s.name.base == (type == "string" ? mson::StringTypeName : type == "array[A]" ? mson::ArrayTypeName : mson::UndefinedTypeName)
                            && s.nestedTypes.size() == (type == "array[A]" ? 1 : 0),
                        "has the type " + show(s.name));
                    ctx.expect(report.warnings.size() == ignored && report.error.code == snowcrash::Error::OK,
                        "is remarked on " + std::to_string(report.warnings.size()) + " times, expected " + std::to_string(ignored));
                    for (auto& r : report.warnings)
                        ctx.expect(r.message == "ignoring unrecognized type attribute" && r.code == snowcrash::IgnoringWarning && r.location.size() == 1, "is remarked on with " + r.message);
                    ctx.outcome(std::to_string(want) + type + std::to_string(ignored));
                }
            }
            std::size_t k = 0;
            while (k < n && ++at[k] == words.size())
                at[k++] = 0;
            if (k == n)
                break;
        }
    }
}

MC_MAIN
