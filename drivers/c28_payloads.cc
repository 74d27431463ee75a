// C28: requests, responses and models have what their sections say.
#include "api.hpp"

using namespace api;

namespace
{
    std::vector<unsigned> codes(const std::vector<Val>& notes)
    {
        std::vector<unsigned> o;
        for (auto& n : notes)
            for (auto& a : n.attrs)
                if (a.first == "code")
                    o.push_back(unsigned(std::stoul(a.second.text)));
        std::sort(o.begin(), o.end());
        return o;
    }

    void one(mc::Ctx& ctx, const Api& a, std::vector<unsigned> expected, const Api* means = nullptr)
    {
        const std::string doc = text(a);
        if (!ctx.begin(mc::quote(doc)))
            return;
        const auto notes = check(ctx, doc, elements(means ? *means : a));
        const auto got = codes(notes);
        std::sort(expected.begin(), expected.end());
        if (got != expected) {
            std::string t = "annotations:";
            for (auto& n : notes)
                t += " '" + n.text + "'";
            t += ", expected codes";
            for (auto c : expected)
                t += " " + std::to_string(c);
            ctx.violation(t);
        }
        ctx.sample(mc::quote(doc), 1);
    }

    Api with(const std::vector<Payload>& payloads, const std::string& method = "POST")
    {
        Api a;
        a.name = "A";
        Resource r;
        r.name = "R";
        r.uri = "/r";
        Action x;
        x.name = "X";
        x.method = method;
        x.payloads = payloads;
        r.actions = { x };
        a.loose = { r };
        return a;
    }

    Payload response(const std::string& status = "200", const std::string& body = "")
    {
        Payload p;
        p.name = status;
        p.body = body;
        return p;
    }

    enum { Duplicate = 2, Formatting = 3, Ignoring = 5, Empty = 6, Indentation = 10, HTTP = 13 };

    // --- what a line of headers stands for

    bool alnum(char c)
    {
        return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
    }

    std::string lower(std::string s)
    {
        for (auto& c : s)
            if (c >= 'A' && c <= 'Z')
                c = char(c + 32);
        return s;
    }

    void line(std::string l, std::vector<std::pair<std::string, std::string> >& headers, std::vector<unsigned>& notes)
    {
        auto trim = [](std::string s) {
            while (!s.empty() && s[0] == ' ')
                s.erase(0, 1);
            while (!s.empty() && s.back() == ' ')
                s.pop_back();
            return s;
        };
        l = trim(l);
        if (l.empty())
            return;
        const auto end = std::min(l.find_first_of(": "), l.size());
        if (!end) {
            notes.push_back(Formatting);
            return;
        }
        const std::string name = l.substr(0, end);
        std::string rest = trim(l.substr(end));
        for (char c : name)
            if (!alnum(c) && std::string("-#$%&'*+.^_`|~").find(c) == std::string::npos) {
                notes.push_back(HTTP);
                return;
            }
        if (rest.empty() || rest[0] != ':')
            notes.push_back(HTTP);
        else
            rest = trim(rest.substr(1));
        bool seen = false;
        for (auto& h : headers)
            seen = seen || lower(h.first) == lower(name);
        if (seen && lower(name) != "set-cookie" && lower(name) != "link")
            notes.push_back(HTTP);
        if (rest.empty())
            notes.push_back(HTTP);
        headers.emplace_back(name, rest);
    }

    void headers(mc::Ctx& ctx, const std::vector<std::string>& lines, int form)
    {
        Payload p = response();
        p.body = "b";
        p.form = 2;
        std::vector<unsigned> notes;
        for (auto& l : lines)
            line(l, p.headers, notes);
        if (p.headers.empty())
            notes.push_back(Formatting);
        std::string all;
        for (auto& l : lines)
            all += l + "\n";
        Writer w;
        std::string doc = "# A\n\n## R [/r]\n\n### X [POST]\n\n+ Response 200\n\n    + Headers\n\n";
        switch (form) {
            case 0:
                w.lines(all, 3);
                break;
            case 1:
                w.lines("```\n" + all + "```", 2);
                break;
            case 2:
                w.lines("~~~\n" + all + "~~~", 2);
                break;
        }
        doc += w.out + "\n    + Body\n\n            b\n";
        if (!ctx.begin(mc::quote(doc)))
            return;
        const auto got = codes(check(ctx, doc, elements(with({ p }))));
        std::sort(notes.begin(), notes.end());
        if (got != notes)
            ctx.violation("annotations: " + std::to_string(got.size()) + ", expected " + std::to_string(notes.size()));
        ctx.count("headers", p.headers.size());
        ctx.sample(mc::quote(doc), 1);
    }
}

SCENARIO("headerlines", 8)
{
    // every line over an alphabet
    const std::vector<std::string> alphabet{ "a", "B", "1", ":", " ", "-", "(", "\xC3\xA9" };
    const unsigned max = ctx.thorough ? 6 : 5;
    for (unsigned len = 1; len <= max; ++len) {
        std::vector<unsigned> at(len, 0);
        for (;;) {
            std::string t;
            for (auto i : at)
                t += alphabet[i];
            if (t.find_first_not_of(' ') != std::string::npos && ctx.mine() && !ctx.full())
                headers(ctx, { t }, 0);
            unsigned i = 0;
            while (i < len && ++at[i] == alphabet.size())
                at[i++] = 0;
            if (i == len)
                break;
        }
    }
}

SCENARIO("headersections", 8)
{
    // every section of up to three lines, in each form
    const std::vector<std::string> lines{ "A: 1", "a: 2", "B:x", "Set-Cookie: a=1", "set-cookie: b=2", "Link: <x>", "LINK : y", "A", ": 1", "X(: 1", "C:", "D: e: f", "Content-Type: text/plain", "content-type: application/json",
        "Content-Length: 1", "E: \"a, b\"", "F: \xC3\xA9" };
    for (std::size_t i = 0; i < lines.size(); ++i)
        for (std::size_t j = 0; j <= lines.size(); ++j)
            for (std::size_t k = 0; k <= (j == lines.size() ? 0 : lines.size()); ++k)
                for (int form = 0; form < 3; ++form) {
                    if (!ctx.mine() || ctx.full())
                        continue;
                    std::vector<std::string> ls{ lines[i] };
                    if (j < lines.size())
                        ls.push_back(lines[j]);
                    if (j < lines.size() && k < lines.size())
                        ls.push_back(lines[k]);
                    headers(ctx, ls, form);
                }
}

namespace
{
    using Use = std::function<void(Payload, std::vector<unsigned>)>;

    // every payload there is, and what is remarked about it
    void payloads(int kind, const Use& use)
    {
        Parameter id;
        id.name = "id";
        for (auto name : { "", "N", "200", "404" })
            for (auto type : { "", "text/plain", "application/json", "application/hal+json; charset=utf-8", "garbage" })
                for (bool description : { false, true })
                    for (int headers = 0; headers < 5; ++headers)
                        for (bool parameters : { false, true })
                            for (int form = 0; form < 5; ++form)
                                for (bool schema : { false, true }) {
                                    Payload p;
                                    p.request = kind == 0;
                                    p.name = name;
                                    if (kind == 0 ? p.name[0] >= '0' : p.name[0] == 'N' || (kind == 2 && p.name[0]))
                                        continue;
                                    if (parameters && kind)
                                        continue;
                                    p.type = type;
                                    if (description)
                                        p.description = "A text.";
                                    if (headers)
                                        p.headers = { { "X-A", "1" } };
                                    if (headers == 2)
                                        p.headers.emplace_back("Content-Length", "1");
                                    if (headers == 3)
                                        p.headers.emplace_back("content-TYPE", "text/html");
                                    if (headers == 4)
                                        p.headers.emplace_back("transfer-ENCODING", "chunked");
                                    if (parameters)
                                        p.parameters = { id };
                                    if (form) {
                                        p.body = "{ \"a\": [\n\n  1 ] }";
                                        p.form = form;
                                    }
                                    if (schema)
                                        p.schema = "{ \"type\":\n  \"array\" }";
                                    // without any section, what there is is the body
                                    const bool nested = headers || parameters || schema || form == 2 || form == 4;
                                    if (nested ? form == 1 || form == 3 : description)
                                        continue;
                                    std::vector<unsigned> notes;
                                    if (kind == 0 && !form && ((!headers && !parameters && p.type.empty()) || headers == 2 || headers == 4))
                                        notes.push_back(Empty);
                                    if (kind == 1 && p.name.empty())
                                        notes.push_back(Empty);
                                    if (headers == 3 && !p.type.empty())
                                        notes.push_back(HTTP);
                                    use(p, notes);
                                }
    }
}

SCENARIO("requests", 8)
{
    payloads(0, [&](const Payload& p, const std::vector<unsigned>& notes) {
        for (auto method : { "POST", "GET" })
            for (int next = 0; next < 3; ++next) {
                if (!ctx.mine() || ctx.full())
                    return;
                std::vector<Payload> all{ p, response("200", "x") };
                if (next == 1)
                    all.insert(all.begin(), response("201"));
                if (next == 2)
                    all.push_back(response("404"));
                one(ctx, with(all, method), notes);
            }
    });
}

SCENARIO("responses", 8)
{
    payloads(1, [&](const Payload& p, const std::vector<unsigned>& notes) {
        for (int next = 0; next < 3; ++next) {
            if (!ctx.mine() || ctx.full())
                return;
            Payload q;
            q.request = true;
            q.name = "Q";
            q.body = "q";
            std::vector<Payload> all{ p };
            if (next)
                all.insert(all.begin(), q);
            if (next == 2)
                all.push_back(response("500", "x"));
            one(ctx, with(all), notes);
        }
    });
}

SCENARIO("statuses", 8)
{
    for (auto method : { "GET", "POST", "HEAD", "CONNECT" })
        for (unsigned status = 100; status < 600; ++status)
            for (int form = 0; form < 3; ++form) {
                if (!ctx.mine() || ctx.full())
                    continue;
                Payload p = response(std::to_string(status), form ? "b" : "");
                p.form = form;
                std::vector<unsigned> notes;
                if (form) {
                    if (status / 100 == 1 || status == 204 || status == 304)
                        notes.push_back(Empty);
                    if (method == std::string("HEAD") || (method == std::string("CONNECT") && status / 100 == 2))
                        notes.push_back(Empty);
                }
                one(ctx, with({ p }, method), notes);
            }
}

SCENARIO("names", 8)
{
    // every name over an alphabet, of requests, resources, actions and groups
    const std::vector<std::string> alphabet{ "a", "Z", " ", "1", "-", ".", "\xC3\xA9", ":", "/", "model", "Response", "&" };
    const unsigned max = ctx.thorough ? 4 : 3;
    for (unsigned len = 1; len <= max; ++len) {
        std::vector<unsigned> at(len, 0);
        for (;;) {
            std::string t;
            for (auto i : at)
                t += alphabet[i];
            const bool plain = t[0] != ' ' && t.back() != ' ' && t.find("  ") == std::string::npos;
            for (int where = 0; where < 4; ++where)
                if (plain && (where != 2 || t[0] != '/') && ctx.mine() && !ctx.full()) {
                    Payload q;
                    q.request = true;
                    q.body = "q";
                    if (len % 2)
                        q.type = "text/plain";
                    Api a = with({ q, response() });
                    a.groups = { Group{ "G", "", a.loose } };
                    a.loose.clear();
                    auto& r = a.groups[0].resources[0];
                    switch (where) {
                        case 0:
                            r.actions[0].payloads[0].name = t;
                            break;
                        case 1:
                            r.actions[0].name = t;
                            break;
                        case 2:
                            r.name = t;
                            break;
                        case 3:
                            a.groups[0].name = t;
                            break;
                    }
                    one(ctx, a, {});
                }
            unsigned i = 0;
            while (i < len && ++at[i] == alphabet.size())
                at[i++] = 0;
            if (i == len)
                break;
        }
    }
}

SCENARIO("models", 8)
{
    // two resources, either of which may have a model, and three payloads that may refer to them
    Payload plain;
    plain.body = "model";
    plain.form = 1;
    Payload typed = plain;
    typed.type = "text/plain";
    Payload full = typed;
    full.headers = { { "X-M", "m" } };
    full.schema = "{}";
    full.description = "About it.";
    full.form = 2;
    Payload headed = plain;
    headed.headers = { { "X-M", "m" }, { "content-type", "application/json" } };
    headed.form = 2;
    Payload cookies = plain;
    cookies.headers = { { "Set-Cookie", "a=1" }, { "X-M", "m" }, { "Set-Cookie", "b=2" } };
    cookies.form = 2;
    const std::vector<Payload> models{ plain, typed, full, headed, cookies };
    for (unsigned m1 = 0; m1 <= models.size(); ++m1)
        for (unsigned m2 = 0; m2 <= models.size(); ++m2)
            for (unsigned uses = 0; uses < 1000; ++uses) {
                if (!ctx.mine() || ctx.full())
                    continue;
                Api a;
                a.name = "A";
                std::vector<unsigned> notes;
                bool undefined = false;
                unsigned u = uses;
                std::vector<Payload> ps;
                for (int i = 0; i < 3; ++i, u /= 10) {
                    // own, with a type or not; of either model, with one of two types or none; and by a section
                    const unsigned k = u % 10;
                    Payload p;
                    p.request = i == 1;
                    p.name = i == 0 ? "200" : i == 1 ? "Q" : "404";
                    if (k == 0 || k == 1 || k == 8 || k == 9) {
                        p.body = "own";
                        p.form = k == 8 ? 2 : 1;
                        p.type = k == 0 || k == 8 ? "" : k == 9 ? "text/css" : "text/plain";
                    } else {
                        p.model = k < 5 ? "R 1" : "R 2";
                        p.type = k % 3 == 2 ? "" : k % 3 ? "text/html" : "application/json";
                    }
                    ps.push_back(p);
                }
                for (auto& p : ps)
                    if (!p.model.empty()) {
                        const unsigned m = p.model == "R 1" ? m1 : m2;
                        if (!m)
                            undefined = true;
                        else if (!p.type.empty() && !contentType(models[m - 1]).empty())
                            notes.push_back(Ignoring);
                    }
                for (int i = 0; i < 2; ++i) {
                    Resource r;
                    r.name = i ? "R 2" : "R 1";
                    r.uri = i ? "/r2" : "/r1";
                    const unsigned m = i ? m2 : m1;
                    if (m) {
                        r.hasModel = true;
                        r.model = models[m - 1];
                    }
                    Action x;
                    x.name = "X";
                    x.method = "GET";
                    if (i)
                        x.payloads = { ps[1], ps[2] };
                    else
                        x.payloads = { ps[0] };
                    r.actions = { x };
                    a.loose.push_back(r);
                }
                if (!undefined) {
                    one(ctx, a, notes);
                    continue;
                }
                const std::string doc = text(a);
                if (!ctx.begin(mc::quote(doc)))
                    continue;
                auto p = docs::parse(doc);
                if (ctx.expect(p.result != nullptr, "no result")) {
                    ctx.expect(p.code == 3, "the code is " + std::to_string(p.code) + " where a model is missing");
                    ctx.expect(em::read(*p.result).kids[0].name == "annotation", "no annotation about a missing model");
                }
                ctx.step();
                ctx.state(doc);
            }
}

MC_MAIN
