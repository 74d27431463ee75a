// C27: the parsed API has the sections of the document, where they are in it.
#include "api.hpp"

using namespace api;

namespace
{
    void one(mc::Ctx& ctx, const Api& a, const Style& s, bool quiet, const Api* means = nullptr, bool loose = false, const Api* known = nullptr)
    {
        const std::string doc = text(a, s);
        if (!ctx.begin(mc::quote(doc)))
            return;
        const Val lost = known ? elements(*known) : Val();
        const auto notes = check(ctx, doc, elements(means ? *means : a), loose, known ? &lost : nullptr);
        if (quiet && !notes.empty())
            ctx.violation("annotated: " + notes[0].text);
        ctx.count(notes.empty() ? "without annotations" : "with annotations");
        ctx.sample(mc::quote(doc), 1);
    }

    const char* methods[] = { "GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "CONNECT", "PROPPATCH", "LOCK", "UNLOCK", "COPY", "MOVE", "MKCOL", "LINK", "UNLINK" };

    // token i: G group, R resource, A action, q request, s response
    bool build(const std::string& tokens, Api& a)
    {
        a.name = "The API";
        a.metadata = { { "FORMAT", "1A" } };
        Resource* r = nullptr;
        Action* x = nullptr;
        unsigned n = 0;
        for (char t : tokens) {
            const std::string id = std::to_string(++n);
            switch (t) {
                case 'G':
                    a.groups.push_back(Group{ "G" + id, "", {} });
                    r = nullptr;
                    x = nullptr;
                    break;
                case 'R': {
                    auto& rs = a.groups.empty() ? a.loose : a.groups.back().resources;
                    rs.push_back(Resource{ "R" + id, "/r" + id });
                    r = &rs.back();
                    x = nullptr;
                    break;
                }
                case 'A':
                    if (!r)
                        return false;
                    r->actions.push_back(Action{ "A" + id, methods[r->actions.size() % 9] });
                    x = &r->actions.back();
                    break;
                default: {
                    if (!x)
                        return false;
                    Payload p;
                    p.request = t == 'q';
                    p.name = p.request ? "Q" + id : "4" + std::string(id.size() == 1 ? "0" : "") + id;
                    p.body = "body " + id;
                    x->payloads.push_back(p);
                    break;
                }
            }
        }
        return true;
    }
}

SCENARIO("shapes", 8)
{
    // every legal sequence of sections
    const std::string alphabet = "GRAqs";
    const unsigned max = ctx.thorough ? 8 : 7;
    for (unsigned len = 0; len <= max; ++len) {
        std::vector<unsigned> at(len, 0);
        for (;;) {
            std::string t;
            for (auto i : at)
                t += alphabet[i];
            Api a;
            if (build(t, a) && ctx.mine() && !ctx.full()) {
                // every action ends with a response, and its requests have one
                bool complete = true;
                for (std::size_t i = 0; i < t.size(); ++i)
                    if ((t[i] == 'A' && (i + 1 == t.size() || t[i + 1] == 'G' || t[i + 1] == 'R' || t[i + 1] == 'A'))
                        || (t[i] == 'q' && (i + 1 == t.size() || (t[i + 1] != 'q' && t[i + 1] != 's'))))
                        complete = false;
                one(ctx, a, Style(), complete);
            }
            unsigned i = 0;
            while (i < len && ++at[i] == alphabet.size())
                at[i++] = 0;
            if (i == len)
                break;
        }
    }
}

namespace
{
    Api rich()
    {
        Api a;
        a.metadata = { { "FORMAT", "1A" }, { "HOST", "http://a.b" }, { "X", "y: z" } };
        a.name = "The API";
        a.description = "About it.\n\nMore about it.";
        Resource r;
        r.name = "Re source";
        r.uri = "/r/{id}{?q}";
        r.description = "A resource.";
        Parameter id;
        id.name = "id";
        id.type = "number";
        id.required = true;
        id.example = "1";
        id.description = "the id";
        Parameter q;
        q.name = "q";
        q.type = "enum[string]";
        q.optional = true;
        q.more = "more on q";
        q.byDefault = "a";
        q.values = { "a", "b" };
        r.parameters = { id, q };
        r.hasModel = true;
        r.model.type = "text/plain";
        r.model.headers = { { "X-M", "m" } };
        r.model.body = "model";
        r.model.form = 2;
        Action x;
        x.name = "Act";
        x.method = "POST";
        x.description = "An action.";
        x.relation = "self";
        Payload q1;
        q1.request = true;
        q1.name = "One";
        q1.type = "application/json";
        q1.headers = { { "X-A", "1" }, { "X-B", "2" } };
        q1.body = "{\n  \"a\": 1\n}";
        q1.schema = "{}";
        q1.form = 2;
        q1.description = "One request.";
        Payload s1;
        s1.name = "200";
        s1.model = "Re source";
        Payload s2;
        s2.name = "404";
        s2.body = "none";
        x.payloads = { q1, s1, s2 };
        Action y;
        y.name = "Other";
        y.method = "DELETE";
        y.uri = "/s/{id}";
        y.parameters = { id };
        Payload s3;
        s3.name = "204";
        y.payloads = { s3 };
        r.actions = { x, y };
        Resource plain;
        plain.uri = "/plain";
        Action z;
        z.method = "GET";
        z.payloads = { s3, s2 };
        plain.actions = { z };
        a.loose = { plain };
        Resource last = plain;
        last.uri = "/last";
        a.groups = { Group{ "First", "A group.", { r } }, Group{ "Second", "", { last } } };
        return a;
    }

    std::vector<Style> styles()
    {
        std::vector<Style> o;
        for (char b : { '+', '-', '*' })
            for (int h = 0; h < 3; ++h)
                for (bool flat : { false, true })
                    for (bool lower : { false, true })
                        for (unsigned blank : { 1u, 2u, 3u })
                            for (unsigned pad : { 0u, 1u }) {
                                if (h == 1 && pad)
                                    continue; // Markdown takes the closing marks for text
                                Style s;
                                s.bullet = b;
                                s.heading = h;
                                s.flat = flat;
                                s.lower = lower;
                                s.blank = blank;
                                s.pad = pad;
                                o.push_back(s);
                            }
        return o;
    }
}

SCENARIO("spelling", 4)
{
    // one rich document without some of its parts, spelled in every way
    const Api full = rich();
    for (unsigned drop = 0; drop < 16; ++drop) {
        Api a = full;
        if (drop & 1)
            a.loose.clear();
        if (drop & 2)
            a.groups.pop_back();
        if (drop & 4)
            a.metadata.clear();
        if (drop & 8)
            a.description.clear();
        for (auto& s : styles())
            if (ctx.mine() && !ctx.full())
                one(ctx, a, s, true);
    }
}

SCENARIO("forms", 4)
{
    // every way to introduce resources and actions, with every method, in pairs
    std::vector<Resource> forms;
    Payload s;
    s.name = "200";
    s.body = "x";
    for (auto m : methods)
        for (int form = 0; form < 7; ++form) {
            Resource r;
            Action a;
            a.method = m;
            s.body = a.method == "HEAD" || a.method == "CONNECT" ? "" : "x";
            a.payloads = { s };
            r.uri = "/u/{id}";
            switch (form) {
                case 0:
                    a.abbreviated = true;
                    a.uri = r.uri;
                    break;
                case 1:
                    a.abbreviated = true;
                    a.uri = r.uri;
                    a.name = "N";
                    break;
                case 2:
                    break;
                case 3:
                    r.name = "N";
                    break;
                case 4:
                    r.name = "N";
                    a.name = "A";
                    break;
                case 5:
                    r.name = "N";
                    a.name = "A";
                    a.uri = "/v/{id}";
                    break;
                case 6:
                    a.name = "A";
                    a.description = "text";
                    break;
            }
            Parameter p;
            p.name = "id";
            if (form == 5 || form == 0 || form == 1)
                a.parameters = { p };
            if (form != 0 && form != 1)
                r.parameters = { p };
            r.actions = { a };
            forms.push_back(r);
        }
    for (std::size_t i = 0; i < forms.size(); ++i)
        for (std::size_t j = 0; j <= forms.size(); ++j)
            for (bool group : { false, true }) {
                if (!ctx.mine() || ctx.full())
                    continue;
                Api a;
                a.name = "API";
                auto& rs = group ? (a.groups.push_back(Group{ "G", "", {} }), a.groups.back().resources) : a.loose;
                rs.push_back(forms[i]);
                if (j < forms.size()) {
                    rs.push_back(forms[j]);
                    for (auto* u : { &rs[1].uri, &rs[1].actions[0].uri })
                        if (!u->empty())
                            *u = "/second" + *u;
                }
                Api means = a;
                auto& ms = group ? means.groups[0].resources : means.loose;
                if (ms.size() == 2 && !ms[0].actions[0].abbreviated && ms[1].actions[0].abbreviated && !ms[1].actions[0].name.empty()) {
                    // a named action with a URI of its own belongs to the resource before it
                    Action x = ms[1].actions[0];
                    x.abbreviated = false;
                    ms.pop_back();
                    ms[0].actions.push_back(x);
                }
                one(ctx, a, Style(), true, &means);
            }
}

SCENARIO("descriptions", 8)
{
    // every pair of blocks of text in every place that is described
    const std::vector<std::string> blocks{ "", "A text.", "Two\nlines.", "+ a list", "- a list\n- of two", "* a", "1. one\n2. two", "> a quote", "    code", "```\nfenced\n\nlines\n```",
        "<b>HTML</b>", "---", "a *b* `c` [d](http://e)", "+ a\n    + b\n    + c", "\xC3\xA9 \xE2\x82\xAC \xF0\x9F\x98\x80", "a & b &amp; c", "| a | b |\n|---|---|\n| 1 | 2 |", "Line: with colon", "[R][]", "Group without heading", "GET /x" };
    for (std::size_t i = 1; i < blocks.size(); ++i)
        for (std::size_t j = 0; j < blocks.size(); ++j)
            for (int place = 0; place < 5; ++place) {
                if (!ctx.mine() || ctx.full())
                    continue;
                Api a = rich();
                a.loose.clear();
                a.groups.pop_back();
                auto& r = a.groups[0].resources[0];
                r.actions.pop_back();
                r.actions[0].payloads.erase(r.actions[0].payloads.begin() + 1, r.actions[0].payloads.end() - 1);
                r.hasModel = false;
                auto& x = r.actions[0];
                const std::string d = blocks[i] + (blocks[j].empty() ? "" : "\n\n" + blocks[j]);
                // items of a list next to those of the format are blocks of their own
                bool items = false;
                for (auto k : { i, j })
                    items = items || (!blocks[k].empty() && std::string("+-*1").find(blocks[k][0]) != std::string::npos);
                if (place == 4 && (blocks[j] == "" ? blocks[i][0] == '1' : items))
                    continue; // to Markdown, the items of the payload are of that list or of what is between
                auto describe = [&](const std::string& d) {
                    (place == 0 ? a.description : place == 1 ? a.groups[0].description : place == 2 ? r.description : place == 3 ? x.description : x.payloads[0].description) = d;
                    return a;
                };
                // the indentation of the first line of code is lost (F24)
                std::string less = d;
                const auto at = less.find("    code");
                if (at != std::string::npos)
                    less.erase(at, 4);
                const Api known = describe(less);
                describe(d);
                one(ctx, a, Style(), true, nullptr, items, less == d ? nullptr : &known);
            }
}

MC_MAIN
