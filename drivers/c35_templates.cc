// C35: what is said of URI templates, and how a URI is taken apart.
#include "docs.hpp"

#include "UriTemplateParser.h"

#include <algorithm>
#include <tuple>

using namespace em;

namespace
{
    // ---- the reference: RFC 6570 less what RFC 1738 calls unsafe

    // length of the UTF-8 character at i, 0: none
    std::size_t characterAt(const std::string& s, std::size_t i, unsigned long* code = nullptr)
    {
        auto at = [&](std::size_t k) { return static_cast<unsigned char>(s[k]); };
        if (i >= s.size())
            return 0;
        unsigned c = at(i);
        std::size_t n = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0;
        if (!n || i + n > s.size())
            return 0;
        unsigned long v = n == 1 ? c : n == 2 ? c & 0x1F : n == 3 ? c & 0x0F : c & 0x07;
        for (std::size_t k = 1; k < n; ++k) {
            if ((at(i + k) & 0xC0) != 0x80)
                return 0;
            v = v << 6 | (at(i + k) & 0x3F);
        }
        if ((n == 3 && v < 0x800) || (n == 4 && (v < 0x10000 || v > 0x10FFFF)) || (v >= 0xD800 && v < 0xE000))
            return 0;
        if (code)
            *code = v;
        return n;
    }

    bool hex(char c)
    {
        return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
    }
    bool tripletAt(const std::string& s, std::size_t i)
    {
        return i + 2 < s.size() && s[i] == '%' && hex(s[i + 1]) && hex(s[i + 2]);
    }

    bool inUcs(unsigned long v)
    {
        if ((v >= 0xA0 && v <= 0xD7FF) || (v >= 0xF900 && v <= 0xFDCF) || (v >= 0xFDF0 && v <= 0xFFEF))
            return true;
        if (v >= 0x10000 && v < 0xF0000)
            return (v & 0xFFFF) <= 0xFFFD && !(v >= 0xE0000 && v < 0xE1000);
        return (v >= 0xE000 && v <= 0xF8FF) || (v >= 0xF0000 && (v & 0xFFFF) <= 0xFFFD);
    }

    // how much of a text of letters is fine from i on: to the end or the first that is not allowed
    std::size_t literal(const std::string& s, std::size_t i)
    {
        while (i < s.size()) {
            if (tripletAt(s, i)) {
                i += 3;
                continue;
            }
            unsigned long v = 0;
            std::size_t n = characterAt(s, i, &v);
            if (!n)
                return i;
            if (v < 0x80 ? v <= 0x20 || v == 0x7F || std::string("\"%'<>[\\]^`{|}~").find(char(v)) != std::string::npos : !inUcs(v))
                return i;
            i += n;
        }
        return i;
    }

    bool wordAt(const std::string& s, std::size_t i)
    {
        return i < s.size() && ((s[i] >= 'a' && s[i] <= 'z') || (s[i] >= 'A' && s[i] <= 'Z') || (s[i] >= '0' && s[i] <= '9') || s[i] == '_');
    }

    // the same for a variable
    std::size_t variable(const std::string& s)
    {
        std::size_t i = 0;
        for (;;) {
            if (tripletAt(s, i))
                i += 3;
            else if (wordAt(s, i))
                ++i;
            else if (i > 0 && i < s.size() && s[i] == '.' && !(i + 1 < s.size() && s[i + 1] == '.'))
                ++i;
            else
                break;
        }
        if (i == 0)
            return 0;
        if (i < s.size() && s[i] == '*')
            return i + 1;
        if (i < s.size() && s[i] == ':') {
            ++i;
            for (int d = 0; d < 3 && i < s.size() && s[i] >= '0' && s[i] <= '9'; ++d)
                ++i;
        }
        return i;
    }

    // what is wrong at i
    std::pair<std::string, std::string> fault(const std::string& s, std::size_t i)
    {
        if (s[i] == '%') {
            std::size_t a = characterAt(s, i + 1), b = a ? characterAt(s, i + 1 + a) : 0;
            if (a && b)
                return { "percent encoded character '" + s.substr(i, 1 + a + b) + "'", "" };
        }
        if (s.compare(i, 2, "..") == 0)
            return { "continuous dots '" + s.substr(i, s.find_first_not_of('.', i) - i) + "'", "" };
        std::size_t n = characterAt(s, i);
        std::string c = s.substr(i, n), code;
        for (unsigned char b : c) {
            code += '%';
            code += "0123456789ABCDEF"[b >> 4];
            code += "0123456789ABCDEF"[b & 15];
        }
        return { c == "{" ? "nested expression brace '{'" : "character '" + c + "'", code };
    }

    // the remarks on a template; one that is not told exactly (of nothing, or of no UTF-8) ends in "*"
    std::vector<std::string> expected(const std::string& t)
    {
        std::vector<std::string> o;
        std::size_t i = 0;
        while (i < t.size()) {
            if (t[i] != '{') {
                std::size_t end = std::min(t.find('{', i), t.size());
                std::string part = t.substr(i, end - i);
                std::size_t bad = literal(part, 0);
                if (bad < part.size()) {
                    if (!characterAt(part, bad))
                        o.push_back("URI template contains disallowed *");
                    else
                        o.push_back("URI template contains disallowed " + fault(part, bad).first + ". Disallowed characters must be percent encoded.");
                }
                i = end;
                continue;
            }
            ++i;
            if (i < t.size() && std::string("+#./;?&=,!@|").find(t[i]) != std::string::npos) {
                const char c = t[i++];
                if (c == '.' || c == '/' || c == ';' || std::string("=,!@|").find(c) != std::string::npos)
                    o.push_back(std::string("URI template '")
                        + (c == '.' ? "label" : c == '/' ? "path segment" : c == ';' ? "path segment parameter" : "reserved operator")
                        + "' expansion is not supported");
            }
            for (;;) {
                std::size_t end = std::min(t.find_first_of(",}", i), t.size());
                std::string name = t.substr(i, end - i);
                std::size_t ok = variable(name);
                if (name.empty() || (ok < name.size() && !characterAt(name, ok)))
                    o.push_back("URI template variable '" + name + "' contains invalid *");
                else if (ok < name.size()) {
                    auto f = fault(name, ok);
                    o.push_back("URI template variable '" + name + "' contains invalid " + f.first
                        + (f.second.empty() ? "" : ", which should be encoded as '" + f.second + "'")
                        + ". Allowed characters for expressions are A-Z a-z 0-9 _ and percent encoded characters");
                }
                i = end;
                if (i < t.size() && t[i] == ',') {
                    ++i;
                    continue;
                }
                break;
            }
            if (i < t.size())
                ++i; // the bracket
            else
                o.push_back("URI Template expression is missing closing bracket '}'");
        }
        return o;
    }

    bool says(const std::string& got, const std::string& want)
    {
        if (!want.empty() && want.back() == '*')
            return got.compare(0, want.size() - 1, want, 0, want.size() - 1) == 0;
        return got == want;
    }

    std::string show(const std::vector<std::string>& v)
    {
        std::string o = "[";
        for (auto& s : v)
            o += (o.size() > 1 ? "; " : "") + mc::quote(s);
        return o + "]";
    }

    std::string compare(const std::vector<std::string>& got, const std::vector<std::string>& want)
    {
        bool ok = got.size() == want.size();
        for (std::size_t i = 0; ok && i < got.size(); ++i)
            ok = says(got[i], want[i]);
        return ok ? "" : "is remarked on by " + show(got) + ", expected " + show(want);
    }

    void split(const std::string& t, std::string& scheme, std::string& host, std::string& path)
    {
        std::size_t i = 0;
        for (std::string s : { "https", "http", "file", "ftp" })
            if (t.compare(0, s.size(), s) == 0) {
                scheme = s;
                i = s.size();
                break;
            }
        if (t.compare(i, 3, "://") == 0)
            i += 3;
        std::size_t end = std::min(t.find('/', i), t.size());
        host = t.substr(i, end - i);
        path = t.substr(end);
    }

    void decide(mc::Ctx& ctx, const std::string& t)
    {
        mdp::CharactersRangeSet place;
        place.push_back(mdp::CharactersRange(7, 3));
        place.push_back(mdp::CharactersRange(20, 4));
        snowcrash::ParsedURITemplate r;
        snowcrash::URITemplateParser::parse(t, place, r);
        std::vector<std::string> got;
        for (auto& w : r.report.warnings) {
            got.push_back(w.message);
            ctx.expect(w.code == snowcrash::URIWarning, "is remarked on with code " + std::to_string(w.code));
            ctx.expect(w.location.size() == 2 && w.location[0].location == 7 && w.location[0].length == 3
                    && w.location[1].location == 20 && w.location[1].length == 4,
                "is remarked on somewhere else");
        }
        auto want = expected(t);
        auto d = compare(got, want);
        if (!d.empty())
            ctx.violation(d);
        ctx.expect(r.report.error.code == 0, "is an error: " + r.report.error.message);
        if (t.find('\0') == std::string::npos) {
            std::string s, h, p;
            split(t, s, h, p);
            if (r.scheme != s || r.host != h || r.path != p)
                ctx.violation("is taken for scheme '" + r.scheme + "', host '" + r.host + "' and path '" + r.path + "', expected '" + s + "', '" + h + "', '" + p + "'");
        }
        ctx.step();
        ctx.trace();
        ctx.state(t);
        ctx.outcome(show(want));
    }

    // every sequence of up to `longest` letters, within front and back
    void all(mc::Ctx& ctx, const std::vector<std::string>& letters, std::size_t longest, const std::string& front, const std::string& back)
    {
        std::uint64_t id = 0;
        std::vector<std::size_t> at;
        std::string t;
        auto describe = [&]() { return mc::quote(t); };
        for (std::size_t n = 0; n <= longest; ++n) {
            at.assign(n, 0);
            for (;;) {
                ++id;
                if (ctx.mine()) {
                    t = front;
                    for (auto i : at)
                        t += letters[i];
                    t += back;
                    if (!t.empty() && ctx.beginN(id, describe))
                        decide(ctx, t);
                    if (ctx.full())
                        return;
                }
                std::size_t k = 0;
                while (k < n && ++at[k] == letters.size())
                    at[k++] = 0;
                if (k == n)
                    break;
            }
        }
    }

    const std::vector<std::string>& letters()
    {
        static const std::vector<std::string> l{ "a", "{", "}", ",", ".", "%", "2", ":", "*", "+", ";", "[", " ", "\xC3\xA9", "\x01", "/", "-", "g" };
        return l;
    }

    const std::vector<std::string>& parts()
    {
        static const std::vector<std::string> p{ "/a", "/%7B", "/%7", "/b c", "/[x]", "/\xC3\xA9", "/}", "{id}", "{?q,r*}", "{&s:3}", "{+p}",
            "{#f}", "{.l}", "{/s}", "{;p}", "{=x}", "{a-b}", "{a..b,c.d}", "{%41}", "{%4,%zz,%\xC3\xA9y}", "{a,}", "{", "{a" };
        return p;
    }
}

SCENARIO("templates", 8)
{
    all(ctx, letters(), ctx.thorough ? 5 : 4, "", "");
}

SCENARIO("variables", 8)
{
    all(ctx, letters(), ctx.thorough ? 5 : 4, "/{", "}");
}

SCENARIO("parts", 8)
{
    all(ctx, parts(), ctx.thorough ? 4 : 3, "", "");
}

SCENARIO("schemes", 2)
{
    all(ctx, { "http", "https", "ftp", "file", "://", "/", "a", ":", "s", "{x}", "\n" }, ctx.thorough ? 5 : 4, "", "");
}

// every character, in a literal and in a variable; every byte
SCENARIO("characters", 8)
{
    std::string t;
    auto describe = [&]() { return mc::quote(t); };
    std::uint64_t id = 0;
    auto one = [&](const std::string& s) {
        ++id;
        if (!ctx.mine() || ctx.full())
            return;
        t = s;
        if (ctx.beginN(id, describe))
            decide(ctx, t);
    };
    for (unsigned long c = 1; c <= 0x10FFFF; ++c) {
        if (c >= 0xD800 && c < 0xE000)
            continue;
        if (c >= 0x3000 && !ctx.thorough && (c & 0xFF) > 2 && (c & 0xFF) < 0xCE && (c & 0xFFF) > 2)
            continue;
        std::string s;
        if (c < 0x80)
            s = char(c);
        else if (c < 0x800)
            s = { char(0xC0 | c >> 6), char(0x80 | (c & 0x3F)) };
        else if (c < 0x10000)
            s = { char(0xE0 | c >> 12), char(0x80 | (c >> 6 & 0x3F)), char(0x80 | (c & 0x3F)) };
        else
            s = { char(0xF0 | c >> 18), char(0x80 | (c >> 12 & 0x3F)), char(0x80 | (c >> 6 & 0x3F)), char(0x80 | (c & 0x3F)) };
        one("/a" + s + "b");
        one("/{a" + s + "b}");
        if (c < 0x3000) {
            one("/{" + s + "b}");
            one("/%" + s + "a");
            one("/%a" + s);
            one("/{b%a" + s + "}");
        }
    }
    for (unsigned a = 0; a < 256; ++a)
        for (unsigned b = 0x70; b < 256; ++b) {
            one(std::string("/a") + char(a) + char(b));
            one(std::string("/{a") + char(a) + char(b) + "}");
        }
}

// within a document
SCENARIO("documents", 8)
{
    struct Form {
        const char *front, *back;
        bool action;
    };
    const std::vector<Form> forms{ { "# A\n\n## ", "\n", true }, { "# A\n\n## R [", "]\n", true }, { "# A\n\n# GET ", "\n", false },
        { "# A\n\nText.\n\n# Group G\n\n## R [GET ", "]\n", false } };
    std::vector<std::string> uris;
    for (auto& a : parts()) {
        if (a[0] == '/')
            uris.push_back(a);
        for (auto& b : parts())
            uris.push_back((a[0] == '/' ? "" : "/") + a + b);
    }
    uris.push_back("/");
    for (auto& f : forms)
        for (auto& u : uris) {
            if (!ctx.mine() || ctx.full())
                continue;
            std::string doc = f.front + u + f.back + "\n" + (f.action ? "### Do [GET]\n\n" : "") + "+ Response 204\n";
            if (!ctx.begin(doc))
                continue;
            docs::Parsed p = docs::parse(doc);
            auto want = expected(u);
            std::vector<std::string> got;
            std::string bad;
            Val top = p.result ? read(*p.result) : Val();
            bool uri = false;
            std::function<void(const Val&)> look = [&](const Val& v) {
                if (v.name == "annotation") {
                    got.push_back(v.text);
                    for (auto& a : v.attrs)
                        if (a.first == "code" && docs::number(a.second) != "12")
                            bad = "has a remark with code " + docs::number(a.second);
                }
                if (v.name == "resource")
                    for (auto& a : v.attrs)
                        uri = uri || (a.first == "href" && a.second.text == u);
                for (auto& k : v.kids)
                    look(k);
            };
            look(top);
            auto d = compare(got, want);
            if (!d.empty())
                ctx.violation(d);
            ctx.expect(bad.empty(), bad);
            ctx.expect(p.code == 0, "has code " + std::to_string(p.code));
            ctx.expect(uri, "has no resource of that URI");
            ctx.step();
            ctx.trace();
            ctx.state(doc);
            ctx.outcome(show(want));
        }
}

MC_MAIN
