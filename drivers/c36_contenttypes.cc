// C36: reading media types, and giving them with the bodies they are of.
#include "docs.hpp"

#include <sstream>

#include "backend/MediaTypeS11n.h"
#include <apib/parser/MediaTypeParser.h>

using namespace em;
using apib::syntax::media_type;

namespace
{
    bool alnum(unsigned char c)
    {
        return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
    }
    bool in(unsigned char c, const char* set)
    {
        return c && std::strchr(set, c);
    }

    // the reference: RFC 6838 for names, RFC 2045 for parameters (and white space between them)
    struct Text {
        const std::string& s;
        std::size_t i = 0;

        bool name(std::string& o)
        {
            o.clear();
            while (i < s.size() && (alnum(s[i]) || (!o.empty() && in(s[i], "!#$&^_-."))))
                o += s[i++];
            return !o.empty() && o.size() <= 127;
        }
        void space()
        {
            while (i < s.size() && (s[i] == ' ' || s[i] == '\t'))
                ++i;
        }
        bool value(std::string& o)
        {
            o.clear();
            if (i < s.size() && s[i] == '"') {
                for (++i; i < s.size() && s[i] != '"'; ++i) {
                    if (s[i] == '\\' && ++i == s.size())
                        return false;
                    const unsigned char c = static_cast<unsigned char>(s[i]);
                    if ((c < 0x20 && c != '\t') || c == 0x7F)
                        return false;
                    o += s[i];
                }
                return i < s.size() && s[i++] == '"';
            }
            while (i < s.size() && (alnum(s[i]) || in(s[i], "!#$%&'*+-.^_`{|}~")))
                o += s[i++];
            return !o.empty();
        }
        bool read(media_type& t)
        {
            space();
            if (!name(t.type) || i == s.size() || s[i++] != '/')
                return false;
            std::vector<std::string> parts(1);
            if (!name(parts[0]))
                return false;
            while (i < s.size() && s[i] == '+') {
                ++i;
                parts.emplace_back();
                if (!name(parts.back()))
                    return false;
            }
            t.subtype = parts[0];
            for (std::size_t k = 1; k + 1 < parts.size(); ++k)
                t.subtype += "+" + parts[k];
            if (parts.size() > 1)
                t.suffix = parts.back();
            for (bool first = true;; first = false) {
                const std::size_t before = i;
                space();
                if (i == s.size())
                    return true;
                if (s[i] == ';') {
                    ++i;
                    space();
                } else if (first || i == before)
                    return false;
                std::string n, v;
                if (!name(n) || i == s.size() || s[i++] != '=' || !value(v))
                    return false;
                t.parameters.emplace_back(n, v);
            }
        }
    };

    std::string serialized(const media_type& t)
    {
        using apib::backend::operator<<;
        std::ostringstream o;
        o << t;
        return o.str();
    }
    bool same(const media_type& a, const media_type& b)
    {
        return a.type == b.type && a.subtype == b.subtype && a.suffix == b.suffix && a.parameters == b.parameters;
    }
    std::string show(const media_type& t)
    {
        std::string o = t.type + " / " + t.subtype + " + " + t.suffix;
        for (auto& p : t.parameters)
            o += " ; " + p.first + " = <" + p.second + ">";
        return mc::quote(o);
    }

    // as it is written: with a space after each ";", and quotes only where they are needed
    std::string written(const media_type& t)
    {
        std::string o = t.type + "/" + t.subtype + (t.suffix.empty() ? "" : "+" + t.suffix);
        for (auto& p : t.parameters) {
            o += "; " + p.first + "=";
            bool plain = !p.second.empty();
            std::string q;
            for (unsigned char c : p.second) {
                plain = plain && c > 0x20 && c < 0x7F && !in(c, "()<>@,;:\\\"/[]?=");
                if (c == '"' || c == '\\')
                    q += '\\';
                q += char(c);
            }
            o += plain ? p.second : "\"" + q + "\"";
        }
        return o;
    }

    void decide(mc::Ctx& ctx, const std::string& s)
    {
        media_type want;
        const bool valid = Text{ s }.read(want);
        const media_type got = apib::parser::parseMediaType(s);
        ctx.step();
        ctx.state(s);
        if (!valid) { // what is made of it is not specified, but has to be done without harm
            ctx.outcome("none");
            return;
        }
        ctx.trace();
        ctx.count("media types");
        ctx.outcome(show(want));
        if (!ctx.expect(same(got, want), "is read as " + show(got) + ", expected " + show(want)))
            return;
        const std::string text = serialized(got);
        ctx.expect(text == written(want), "is written as " + mc::quote(text) + ", expected " + mc::quote(written(want)));
        const media_type again = apib::parser::parseMediaType(text);
        ctx.expect(same(again, want), "is written as " + mc::quote(text) + ", which is read as " + show(again));
    }

    void all(mc::Ctx& ctx, const std::vector<std::string>& letters, std::size_t longest, const std::string& front)
    {
        std::uint64_t id = 0;
        std::vector<std::size_t> at;
        std::string t;
        auto describe = [&]() { return mc::quote(t); };
        for (std::size_t n = 0; n <= longest; ++n) {
            at.assign(n, 0);
            for (;;) {
                ++id;
                if (ctx.mine()) {
                    t = front;
                    for (auto i : at)
                        t += letters[i];
                    if (ctx.beginN(id, describe))
                        decide(ctx, t);
                    if (ctx.full())
                        return;
                }
                std::size_t k = 0;
                while (k < n && ++at[k] == letters.size())
                    at[k++] = 0;
                if (k == n)
                    break;
            }
        }
    }
}

SCENARIO("texts", 8)
{
    all(ctx, { "a", "/", "+", ";", "=", " ", "\"", "\\", "-", "\t" }, ctx.thorough ? 7 : 6, "");
}

SCENARIO("endings", 8)
{
    all(ctx, { "k", "=", ";", " ", "\"", "\\", "+", "-", "\t", "%" }, ctx.thorough ? 7 : 6, "a/b+c;k=");
}

SCENARIO("parameters", 8)
{
    all(ctx, { ";", "; ", " ; ", " ", "k=v", "charset=utf-8", "boundary=---B'~*", "q=\"\"", "q=\"x \\\" ;y=\\\\\"", "K=%7B`|", "name" }, ctx.thorough ? 7 : 6, "multipart/form-data");
}

// every byte in every place, and the limits of lengths
SCENARIO("bytes", 4)
{
    std::string t;
    auto describe = [&]() { return mc::quote(t); };
    std::uint64_t id = 0;
    auto one = [&](const std::string& s) {
        ++id;
        if (!ctx.mine() || ctx.full())
            return;
        t = s;
        if (ctx.beginN(id, describe))
            decide(ctx, t);
    };
    const char* frames[][2] = { { "", "/b" }, { "a", "/b" }, { "a/", "" }, { "a/", "+c" }, { "a/b", "" }, { "a/b", "+c;k=v" }, { "a/b+", "" }, { "a/b+c", ";k=v" }, { "a/b;", "=v" },
        { "a/b;k", "=v" }, { "a/b;k=", "" }, { "a/b;k=v", "" }, { "a/b;k=v", ";l=w" }, { "a/b;k=\"", "\"" }, { "a/b;k=\"\\", "\"" }, { "a/b;k=\"x\\", "y\";l=w" }, { "a/b;k=\"x", "\\\\\"" } };
    for (auto& f : frames)
        for (unsigned c = 0; c < 256; ++c) {
            one(f[0] + std::string(1, char(c)) + f[1]);
            for (unsigned d = 0; d < 256; d += ctx.thorough || c < 0x80 ? 1 : 17)
                one(f[0] + std::string{ char(c), char(d) } + f[1]);
        }
    for (std::size_t n : { 1, 2, 126, 127, 128, 129, 300 }) {
        const std::string l(n, 'x'), m = "y" + std::string(n - 1, '-');
        for (auto& x : { l, m }) {
            one(x + "/b");
            one("a/" + x);
            one("a/b+" + x);
            one("a/" + x + "+c");
            one("a/b;" + x + "=v");
            one("a/b;k=" + x);
            one("a/b;k=\"" + x + "\"");
        }
    }
}

// the body of a message has the media type the message is given, in one of two ways
SCENARIO("documents", 8)
{
    const std::vector<std::string> types{ "application/json", "Text/Plain", "a/b+c+d", "application/vnd.x-1+JSON", "application/json+x", "x/json" },
        params{ "", ";k=v", "; charset=utf-8", " ; a=1 b=2", "; boundary=---BOUNDARY", "; q=\"x y\"", "; q=\"\"", "; q=\"x\\\"y\"", "; q=\"x;y=z\"", ";k=\xC3\xA9", "; q=\"\xC3\xA9\"", ";a=1;b=2;c=3" };
    std::vector<std::string> all;
    for (auto& t : types)
        for (auto& p : params)
            for (auto& q : params)
                all.push_back(t + p + q);
    for (auto& t : all)
        for (int form = 0; form < 8; ++form) {
            if (!ctx.mine() || ctx.full())
                continue;
            if (form != 1 && form != 3 && t.find('\\') != std::string::npos)
                continue; // the signature of a message takes no backslash
            media_type want;
            if (!Text{ t }.read(want))
                continue;
            std::string doc = "# A\n\n## R [/r]\n\n### X [POST]\n\n";
            const std::string body = "    + Body\n\n            x\n";
            const std::string head = "    + Headers\n\n            Content-Type: " + t + "\n\n";
            switch (form) {
                case 0:
                    doc += "+ Response 200 (" + t + ")\n\n" + body;
                    break;
                case 1:
                    doc += "+ Response 200\n\n" + head + body;
                    break;
                case 2:
                    doc += "+ Request N (" + t + ")\n\n        x\n\n+ Response 204\n";
                    break;
                case 3:
                    doc += "+ Request\n\n" + head + body + "\n+ Response 204\n";
                    break;
                case 4:
                    doc = "# A\n\n## M [/m]\n\n+ Model (" + t + ")\n\n        x\n\n### X [POST]\n\n+ Response 200\n\n    [M][]\n";
                    break;
                case 5:
                    doc += "+ Response 200 (" + t + ")\n\n    + Schema\n\n            {}\n\n" + body;
                    break;
                case 6:
                    doc += "+ Response 200 (" + t + ")\n\n    + Attributes\n        + a: b\n";
                    break;
                case 7:
                    doc += "+ Request N\n\n" + head + "    + Attributes\n        + a: b\n\n+ Response 204\n";
                    break;
            }
            auto lower = [](std::string x) {
                for (auto& c : x)
                    c = c >= 'A' && c <= 'Z' ? char(c + 32) : c;
                return x;
            };
            const bool json = lower(want.type) == "application" && lower(want.suffix.empty() ? want.subtype : want.suffix) == "json";
            std::vector<std::string> wantBodies, wantSchemas;
            if (form < 6 || json)
                wantBodies.push_back(written(want));
            if (form >= 6 ? json : form == 5)
                wantSchemas.push_back(json ? "application/schema+json" : "text/plain");
            if (!ctx.begin(doc))
                continue;
            docs::Parsed p = docs::parse(doc);
            std::vector<std::string> got, schemas, headers;
            std::function<void(const Val&)> look = [&](const Val& v) {
                if (v.name == "asset") {
                    std::string type, kind;
                    for (auto& a : v.attrs)
                        if (a.first == "contentType")
                            type = a.second.text;
                    for (auto& a : v.meta)
                        if (a.first == "classes" && !a.second.kids.empty())
                            kind = a.second.kids[0].text;
                    (kind == "messageBody" ? got : schemas).push_back(type);
                }
                if (v.name == "httpRequest" || v.name == "httpResponse")
                    for (auto& a : v.attrs)
                        if (a.first == "headers")
                            for (auto& m : a.second.kids)
                                headers.push_back(m.kids.size() > 1 ? m.kids[1].text : "none");
                for (auto& k : v.kids)
                    look(k);
            };
            if (p.result)
                look(read(*p.result));
            ctx.step();
            ctx.trace();
            ctx.state(doc);
            ctx.outcome(got.empty() ? "" : got[0]);
            auto list = [](const std::vector<std::string>& v) {
                std::string o;
                for (auto& x : v)
                    o += (o.empty() ? "" : ", ") + x;
                return o.empty() ? "none" : o;
            };
            ctx.expect(got == wantBodies, "has bodies of " + list(got) + ", expected " + list(wantBodies));
            ctx.expect(schemas == wantSchemas, "has schemas of " + list(schemas) + ", expected " + list(wantSchemas));
            ctx.expect(headers.size() == 1 && headers[0] == t, "has the header " + (headers.empty() ? std::string("none") : headers[0]) + ", expected " + t);
        }
}

MC_MAIN
