// C01: the written form of media types, and which of them are JSON.
#include "mc.hpp"
#include <apib/syntax/MediaType.h>
#include <backend/MediaTypeS11n.h>

#include <backend/Backend.h>

using apib::syntax::media_type;
using apib::backend::operator<<;

namespace
{
    std::string show(const media_type& t)
    {
        std::string o = "{" + mc::quote(t.type) + "|" + mc::quote(t.subtype) + "|" + mc::quote(t.suffix);
        for (auto& p : t.parameters)
            o += "|" + mc::quote(p.first) + "=" + mc::quote(p.second);
        return o + "}";
    }

    bool needsQuotes(unsigned char c)
    {
        return c <= 0x20 || c >= 0x7F || (c && std::strchr("()<>@,;:\\\"/[]?=", c));
    }

    // Reader of the written form, after RFC 2045: type "/" subtype ["+" suffix] *("; " name "=" value)
    bool read(const std::string& s, media_type& out)
    {
        if (s.empty())
            return true;
        auto slash = s.find('/');
        if (slash == std::string::npos)
            return false;
        out.type = s.substr(0, slash);
        std::size_t at = s.find(';', slash);
        std::string sub = s.substr(slash + 1, at == std::string::npos ? at : at - slash - 1);
        auto plus = sub.rfind('+');
        out.subtype = sub.substr(0, plus);
        if (plus != std::string::npos)
            out.suffix = sub.substr(plus + 1);
        while (at != std::string::npos && at < s.size()) {
            if (s.compare(at, 2, "; ") != 0)
                return false;
            at += 2;
            auto eq = s.find('=', at);
            if (eq == std::string::npos)
                return false;
            std::string name = s.substr(at, eq - at), value;
            at = eq + 1;
            if (at < s.size() && s[at] == '"') {
                ++at;
                for (;;) {
                    if (at >= s.size())
                        return false;
                    char c = s[at++];
                    if (c == '"')
                        break;
                    if (c == '\r')
                        return false;
                    if (c == '\\') {
                        if (at >= s.size())
                            return false;
                        c = s[at++];
                        if (c == 'r')
                            c = '\r';
                        else if (c != '\\' && c != '"')
                            return false;
                    }
                    value += c;
                }
            } else {
                if (at >= s.size() || s[at] == ';')
                    return false;
                while (at < s.size() && s[at] != ';') {
                    if (needsQuotes(static_cast<unsigned char>(s[at])))
                        return false;
                    value += s[at++];
                }
            }
            out.parameters.emplace_back(name, value);
        }
        return true;
    }

    void check(mc::Ctx& ctx, const media_type& t)
    {
        const std::string text = apib::backend::serialize(t);
        ctx.step();
        media_type want = t;
        if (t.type.empty() || t.subtype.empty())
            want = media_type();
        want.parameters.clear();
        if (!(t.type.empty() || t.subtype.empty()))
            for (auto& p : t.parameters)
                if (!p.first.empty())
                    want.parameters.push_back(p);
        media_type back;
        if (!ctx.expect(read(text, back), "written as " + mc::quote(text) + ", which does not read back"))
            return;
        ctx.expect(back.type == want.type && back.subtype == want.subtype && back.suffix == want.suffix
                && back.parameters == want.parameters,
            "written as " + mc::quote(text) + ", which reads back as " + show(back));
        for (auto& p : want.parameters) {
            bool quoted = p.second.empty();
            for (unsigned char c : p.second)
                quoted = quoted || needsQuotes(c);
            if (!quoted)
                ctx.expect(text.find("; " + p.first + "=" + p.second) != std::string::npos, "a plain value is not "
                                                                                         "written as it is: "
                        + mc::quote(text));
        }
        ctx.outcome(text);
        ctx.trace();
    }
}

SCENARIO("values", 8)
{
    // every value of up to two bytes, and of three and four over one byte of each kind
    std::uint64_t n = 0;
    auto run = [&](const std::string& v) {
        ++n;
        if (!ctx.mine() || ctx.full())
            return;
        media_type t{ "a", "b", "", { { "k", v } } };
        auto describe = [&] { return show(t); };
        if (!ctx.beginN(n, describe))
            return;
        ctx.state(v);
        check(ctx, t);
    };
    run("");
    for (int a = 0; a < 256; ++a)
        run(std::string(1, static_cast<char>(a)));
    for (int a = 0; a < 256; ++a)
        for (int b = 0; b < 256; ++b)
            run(std::string{ static_cast<char>(a), static_cast<char>(b) });
    const std::string kinds = "ar\\\"\r\n ;=/\x7F\xC3";
    for (char a : kinds)
        for (char b : kinds)
            for (char c : kinds) {
                run(std::string{ a, b, c });
                for (char d : kinds)
                    run(std::string{ a, b, c, d });
            }
    ctx.sample("a/b; k=V for every V of up to two bytes, and up to four bytes over a r \\ \" CR LF SP ; = / DEL 0xC3");
}

SCENARIO("sizes", 2)
{
    // names, values and lists of parameters of any length
    std::vector<std::size_t> sizes;
    for (std::size_t n = 3; n < 140; ++n)
        sizes.push_back(n);
    for (std::size_t n : { 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 4097, 10000 })
        sizes.push_back(n);
    std::uint64_t at = 0;
    for (auto n : sizes) {
        const std::string a(n, 'a'), q = std::string(n, ' ') + "\"" + std::string(n, '\\'), late = a + " ";
        std::vector<media_type> all{ { a, "b", "", {} }, { "a", a, "", {} }, { "a", "b", a, { { "k", "v" } } }, { a, a, a, { { a, a } } },
            { "a", "b", "", { { "k", a } } }, { "a", "b", "", { { a, "v" }, { "l", q } } }, { "a", "b", "json", { { "k", late }, { "l", "w" } } },
            { "a", "b", "", { { "k", a + "\xC3\xA9" } } }, { "a", "b", "", { { "k", a + "\r" } } }, { "application", "json", "", {} }, { "application", a, "json", {} } };
        if (n <= 1025)
            for (std::size_t i = 0; i < n; ++i) {
                all[9].parameters.emplace_back("k" + std::to_string(i), i % 3 ? "v" + std::to_string(i) : i % 2 ? "" : "v w");
                all[10].parameters.emplace_back(i % 5 ? "k" : "", "v" + std::to_string(i));
            }
        for (auto& t : all) {
            ++at;
            auto describe = [&] { return "length " + std::to_string(n) + ": " + show(t); };
            if (!ctx.mine() || ctx.full() || !ctx.beginN(at, describe))
                continue;
            check(ctx, t);
            const bool app = t.type == "application";
            ctx.expect(apib::isJSON(t) == app && !apib::isJSONSchema(t), "taken for JSON, or not");
            media_type u = t;
            u.subtype += "x";
            if (t.suffix.empty())
                ctx.expect(!apib::isJSON(u), "taken for JSON");
            ctx.state(show(t));
        }
    }
}

SCENARIO("shapes", 4)
{
    const std::vector<std::string> types{ "", "application", "x" }, subs{ "", "json", "vnd.a", "A-1" },
        sufs{ "", "json", "s" }, names{ "", "charset", "q" }, values{ "", "utf-8", "a b", "a\"", "\\", "\r", "x;y=z" };
    std::vector<media_type::parameter> ps;
    for (auto& k : names)
        for (auto& v : values)
            ps.emplace_back(k, v);
    std::vector<std::vector<media_type::parameter> > lists(1);
    for (auto& p : ps)
        lists.push_back({ p });
    for (auto& p : ps)
        for (auto& q : ps)
            lists.push_back({ p, q });
    for (std::size_t i = 0; i < ps.size(); i += 2)
        for (std::size_t j = 0; j < ps.size(); j += 3)
            for (auto& q : ps)
                lists.push_back({ ps[i], q, ps[j] });
    for (auto& a : types)
        for (auto& b : subs)
            for (auto& c : sufs)
                for (auto& l : lists) {
                    if (!ctx.mine() || ctx.full())
                        continue;
                    media_type t{ a, b, c, l };
                    if (!ctx.begin(show(t)))
                        continue;
                    ctx.state(show(t));
                    check(ctx, t);
                    ctx.sample(show(t) + " -> " + apib::backend::serialize(t));
                }
}

SCENARIO("stream", 1)
{
    // only appends to the stream it is given, and returns it
    std::ostringstream s;
    s << "<";
    media_type a{ "a", "b", "c", { { "k", "v w" } } }, none;
    if (ctx.begin("a/b+c; k=\"v w\" between < and >")) {
        std::ostream& r = s << a;
        ctx.expect(&r == &s, "returns another stream");
        r << ">" << none << "!";
        ctx.expect(s.str() == "<a/b+c; k=\"v w\">!", "wrote " + s.str());
        ctx.step(2);
    }
    ctx.state(s.str());
}

namespace
{
    std::string lower(std::string s)
    {
        for (char& c : s)
            if (c >= 'A' && c <= 'Z')
                c = static_cast<char>(c + 32);
        return s;
    }

    std::vector<std::string> casings(const std::string& s)
    {
        std::vector<std::string> o;
        for (unsigned m = 0; m < (1u << s.size()); ++m) {
            std::string t = s;
            for (std::size_t i = 0; i < s.size(); ++i)
                if (m >> i & 1)
                    t[i] = static_cast<char>(t[i] - 32);
            o.push_back(t);
        }
        return o;
    }

    // everything one edit away
    std::vector<std::string> near(const std::string& s)
    {
        std::vector<std::string> o{ s, "", s + s };
        for (std::size_t i = 0; i <= s.size(); ++i) {
            if (i < s.size())
                o.push_back(s.substr(0, i) + s.substr(i + 1));
            for (int c = 0; c < 256; ++c) {
                o.push_back(s.substr(0, i) + static_cast<char>(c) + s.substr(i));
                if (i < s.size())
                    o.push_back(s.substr(0, i) + static_cast<char>(c) + s.substr(i + 1));
            }
        }
        return o;
    }

    void recognise(mc::Ctx& ctx, const media_type& t)
    {
        if (!ctx.mine() || ctx.full())
            return;
        auto describe = [&] { return show(t); };
        if (!ctx.beginN(ctx.ordinal, describe))
            return;
        const bool app = lower(t.type) == "application";
        const bool json = app && lower(t.suffix.empty() ? t.subtype : t.suffix) == "json";
        const bool schema = app && lower(t.subtype) == "schema" && lower(t.suffix) == "json";
        ctx.step(2);
        ctx.expect(apib::isJSON(t) == json, json ? "is not recognised as JSON" : "is taken for JSON");
        ctx.expect(apib::isJSONSchema(t) == schema, schema ? "is not recognised as JSON Schema" : "is taken for JSON "
                                                                                                  "Schema");
        ctx.outcome(std::string(json ? "json " : "") + (schema ? "schema" : ""));
        ctx.trace();
    }
}

SCENARIO("recognition", 4)
{
    const std::vector<std::string> some{ "", "application", "APPLICATION", "Application", "text", "applicatio", "json",
        "JSON", "Json", "jso", "jsons", "schema", "SCHEMA", "Schema", "xml", "vnd.api", "hal" };
    for (auto& a : some)
        for (auto& b : some)
            for (auto& c : some) {
                recognise(ctx, media_type{ a, b, c, {} });
                recognise(ctx, media_type{ a, b, c, { { "json", "json" } } });
            }
    for (auto& j : casings("json")) {
        recognise(ctx, media_type{ "application", j, "", {} });
        for (auto& s : casings("schema"))
            recognise(ctx, media_type{ "application", s, j, {} });
    }
    for (auto& a : casings("application"))
        recognise(ctx, media_type{ a, "json", "", {} });
    for (auto& j : near("json")) {
        recognise(ctx, media_type{ "application", j, "", {} });
        recognise(ctx, media_type{ "application", "json", j, {} });
        recognise(ctx, media_type{ "application", "schema", j, {} });
        recognise(ctx, media_type{ "application", j, "json", {} });
    }
    for (auto& s : near("schema"))
        recognise(ctx, media_type{ "application", s, "json", {} });
    for (auto& a : near("application")) {
        recognise(ctx, media_type{ a, "json", "", {} });
        recognise(ctx, media_type{ a, "schema", "json", {} });
    }
    ctx.state("recognition");
    ctx.sample("everything one byte away from application/json and application/schema+json");
}

MC_MAIN
