// An abstract model of an API, how it is written as a blueprint, and the elements it is to be parsed into.
#ifndef VERIF_API_HPP
#define VERIF_API_HPP

#include "docs.hpp"

namespace api
{
    using em::Val;
    using em::arr;
    using em::str;

    struct Style {
        char bullet = '+';
        int heading = 0;    // #, # closed #, underlined where there is such a form
        bool flat = false;  // all headings of one level
        bool lower = false; // keywords
        unsigned blank = 1; // lines between blocks
        unsigned pad = 0;   // spaces at the end of headings and items
    };

    struct Parameter {
        std::string name, type, description, example, byDefault, more;
        bool optional = false, required = false; // as written
        bool old = false;                        // example, type and so on as `a` (type) or (type, `a`)
        std::vector<std::string> values;
        std::string traits;              // between the brackets, if not what the above make
        std::vector<std::string> before; // values of a list before that of the values
    };

    // a data structure of a section, in text and as the element it is
    struct Attributes {
        bool is = false;
        std::string spec, members; // after the keyword, and below it
        Val element;
    };

    struct Payload {
        bool request = false;
        std::string name; // or status
        std::string type, description;
        std::vector<std::pair<std::string, std::string> > headers;
        std::vector<Parameter> parameters;
        std::string body, schema;
        int form = 1;      // of the body: 1 as it is, 2 a section, 3 fenced, 4 a section with a fence
        std::string model; // whose payload this is
        Attributes attributes;
        std::string madeBody, madeSchema; // of the attributes, where there is none
    };

    struct Action {
        std::string name, method, uri, description, relation;
        std::vector<Parameter> parameters;
        std::vector<Payload> payloads;
        bool abbreviated = false; // METHOD URI is all there is of the resource
        Attributes attributes;
        std::vector<std::pair<std::string, std::string> > oldHeaders; // of all messages below
    };

    struct Resource {
        std::string name, uri, description;
        std::vector<Parameter> parameters;
        bool hasModel = false;
        Payload model;
        std::vector<Action> actions;
        Attributes attributes;
        std::vector<std::pair<std::string, std::string> > oldHeaders;
    };

    struct Group {
        std::string name, description;
        std::vector<Resource> resources;
    };

    struct Api {
        std::vector<std::pair<std::string, std::string> > metadata;
        std::string name, description;
        std::vector<Resource> loose;
        std::vector<Group> groups;
        std::string types; // data structures, under a header of their own
        bool typesFirst = false;
        std::vector<Val> structures;
    };

    // --- as text

    struct Writer {
        Style s;
        std::string out;

        explicit Writer(Style s = {}) : s(s) {}

        void gap()
        {
            if (!out.empty())
                out += std::string(s.blank, '\n');
        }
        std::string word(std::string w) const
        {
            if (s.lower)
                w[0] = char(w[0] | 0x20);
            return w;
        }
        std::string pad() const
        {
            return std::string(s.pad, ' ');
        }
        void heading(unsigned level, const std::string& text)
        {
            gap();
            if (s.flat)
                level = 1;
            if (s.heading == 2 && level <= 2)
                out += text + pad() + "\n" + std::string(level == 1 ? "=====" : "-----") + "\n";
            else
                out += std::string(level, '#') + " " + text + (s.heading == 1 ? " " + std::string(level, '#') : "") + pad() + "\n";
        }
        void block(const std::string& text, unsigned depth)
        {
            if (text.empty())
                return;
            gap();
            lines(text, depth);
        }
        void lines(const std::string& text, unsigned depth)
        {
            std::size_t b = 0;
            while (b < text.size()) {
                std::size_t e = text.find('\n', b);
                if (e == std::string::npos)
                    e = text.size();
                if (e > b)
                    out += std::string(depth * 4, ' ') + text.substr(b, e - b);
                out += "\n";
                b = e + 1;
            }
        }
        void item(unsigned depth, const std::string& text)
        {
            out += std::string(depth * 4, ' ') + s.bullet + " " + text + pad() + "\n";
        }

        void parameters(const std::vector<Parameter>& ps, unsigned depth)
        {
            if (ps.empty())
                return;
            gap();
            item(depth, word("Parameters"));
            for (auto& p : ps) {
                std::string t = p.name;
                if (!p.example.empty() && !p.old)
                    t += ": `" + p.example + "`";
                std::string in;
                auto more = [&](const std::string& x) {
                    if (!x.empty())
                        in += (in.empty() ? "" : ", ") + x;
                };
                if (p.old) {
                    if (!p.byDefault.empty())
                        t += " = `" + p.byDefault + "`";
                    more(p.required ? "required" : p.optional ? "optional" : "");
                    more(p.type);
                    more(p.example.empty() ? "" : "`" + p.example + "`");
                } else {
                    more(p.type);
                    more(p.required ? "required" : p.optional ? "optional" : "");
                }
                if (!p.traits.empty())
                    in = p.traits;
                if (!in.empty())
                    t += " (" + in + ")";
                if (!p.description.empty())
                    t += (p.old ? " ... " : " - ") + p.description;
                item(depth + 1, t);
                if (!p.more.empty()) {
                    block(p.more, depth + 2);
                    gap();
                }
                if (!p.byDefault.empty() && !p.old)
                    item(depth + 2, word("Default") + ": `" + p.byDefault + "`");
                if (!p.before.empty()) {
                    item(depth + 2, word(p.old ? "Values" : "Members"));
                    for (auto& v : p.before)
                        item(depth + 3, "`" + v + "`");
                }
                if (!p.values.empty()) {
                    item(depth + 2, word(p.old ? "Values" : "Members"));
                    for (auto& v : p.values)
                        item(depth + 3, "`" + v + "`");
                }
            }
        }

        void attributes(const Attributes& a, unsigned depth)
        {
            if (!a.is)
                return;
            gap();
            item(depth, word("Attributes") + a.spec);
            lines(a.members, depth + 1);
        }

        void headers(const std::vector<std::pair<std::string, std::string> >& headers, unsigned depth)
        {
            if (headers.empty())
                return;
            gap();
            item(depth, word("Headers"));
            std::string h;
            for (auto& x : headers)
                h += x.first + ": " + x.second + "\n";
            block(h, depth + 2);
        }

        void payload(const Payload& p, const char* keyword, unsigned depth)
        {
            gap();
            std::string t = word(keyword);
            if (!p.name.empty())
                t += " " + p.name;
            if (!p.type.empty())
                t += " (" + p.type + ")";
            item(depth, t);
            if (!p.model.empty()) {
                block("[" + p.model + "][]", depth + 1);
                return;
            }
            block(p.description, depth + 1);
            headers(p.headers, depth + 1);
            parameters(p.parameters, depth + 1);
            attributes(p.attributes, depth + 1);
            if (!p.body.empty()) {
                if (p.form == 1)
                    block(p.body, depth + 2);
                else if (p.form == 3)
                    block("```\n" + p.body + (p.body.back() == '\n' ? "" : "\n") + "```", depth + 1);
                else {
                    gap();
                    item(depth + 1, word("Body"));
                    if (p.form == 4)
                        block("```\n" + p.body + (p.body.back() == '\n' ? "" : "\n") + "```", depth + 2);
                    else
                        block(p.body, depth + 3);
                }
            }
            if (!p.schema.empty()) {
                gap();
                item(depth + 1, word("Schema"));
                block(p.schema, depth + 3);
            }
        }

        void action(const Action& a, unsigned level)
        {
            std::string what = a.method + (a.uri.empty() ? "" : " " + a.uri);
            heading(level, a.name.empty() ? what : a.name + " [" + what + "]");
            block(a.description, 0);
            if (!a.relation.empty()) {
                gap();
                item(0, word("Relation") + ": " + a.relation);
            }
            parameters(a.parameters, 0);
            headers(a.oldHeaders, 0);
            attributes(a.attributes, 0);
            for (auto& p : a.payloads)
                payload(p, p.request ? "Request" : "Response", 0);
        }

        void resource(const Resource& r, unsigned level)
        {
            if (r.actions.size() == 1 && r.actions[0].abbreviated) {
                action(r.actions[0], level);
                return;
            }
            heading(level, r.name.empty() ? r.uri : r.name + " [" + r.uri + "]");
            block(r.description, 0);
            parameters(r.parameters, 0);
            headers(r.oldHeaders, 0);
            attributes(r.attributes, 0);
            if (r.hasModel)
                payload(r.model, "Model", 0);
            for (auto& a : r.actions)
                action(a, level + 1);
        }

        std::string write(const Api& a)
        {
            for (auto& m : a.metadata)
                out += m.first + ": " + m.second + "\n";
            if (!a.name.empty())
                heading(1, a.name);
            block(a.description, 0);
            auto types = [&] {
                if (a.types.empty())
                    return;
                heading(1, "Data Structures");
                gap();
                out += a.types;
            };
            if (a.typesFirst)
                types();
            for (auto& r : a.loose)
                resource(r, 2);
            if (!a.typesFirst)
                types();
            for (auto& g : a.groups) {
                heading(1, word("Group") + " " + g.name);
                block(g.description, 0);
                for (auto& r : g.resources)
                    resource(r, 2);
            }
            return out;
        }
    };

    inline std::string text(const Api& a, const Style& s = {})
    {
        return Writer(s).write(a);
    }

    // --- as elements

    inline Val list(const char* name)
    {
        return arr().named(name);
    }

    inline void copy(Val& to, const std::string& text)
    {
        if (!text.empty())
            to.kids.push_back(str(text).named("copy"));
    }

    inline Val parameters(const std::vector<Parameter>& ps)
    {
        Val o = em::obj().named("hrefVariables");
        for (auto& p : ps) {
            Val v = p.example.empty() ? Val(em::String) : str(p.example);
            if (!p.values.empty()) {
                v = p.example.empty() ? Val(em::Enum) : Val(em::Enum, std::vector<Val>{ str(p.example) });
                if (!p.byDefault.empty())
                    v = v.attr("default", Val(em::Enum, std::vector<Val>{ str(p.byDefault) }));
                Val e = arr();
                for (auto& x : p.values)
                    e.kids.push_back(str(x));
                v = v.attr("enumerations", e);
            } else if (!p.byDefault.empty())
                v = v.attr("default", str(p.byDefault));
            Val m = em::mem(p.name, v);
            std::string d = p.description;
            if (!p.more.empty())
                d += (d.empty() ? "" : "\n\n") + p.more;
            if (!d.empty())
                m = m.metaOf("description", str(d));
            if (!p.type.empty()) {
                std::string t = p.type;
                if (t.compare(0, 5, "enum[") == 0)
                    t = t.substr(5, t.size() - 6);
                m = m.metaOf("title", str(t));
            }
            o.kids.push_back(m.attr("typeAttributes", arr({ str(p.optional ? "optional" : "required") })));
        }
        return o;
    }

    using Models = std::map<std::string, Payload>;

    // header names are of either case
    inline std::string contentType(const Payload& p)
    {
        if (!p.type.empty())
            return p.type;
        for (auto& h : p.headers) {
            std::string n;
            for (char c : h.first)
                n += char(c >= 'A' && c <= 'Z' ? c + 32 : c);
            if (n == "content-type")
                return h.second;
        }
        return "";
    }

    inline Val asset(const std::string& content, const char* klass, const std::string& type)
    {
        Val a = str(content + (content.back() == '\n' ? "" : "\n")).named("asset").metaOf("classes", arr({ str(klass) }));
        return type.empty() ? a : a.attr("contentType", str(type));
    }

    inline Val structure(const Val& of)
    {
        return Val(em::Holder, std::vector<Val>{ of }).named("dataStructure");
    }
    // is it a media type of JSON?
    inline bool isJson(const std::string& type)
    {
        const std::string t = type.substr(0, type.find(';'));
        const size_t slash = t.find('/'), plus = t.rfind('+');
        return t.substr(0, slash) == "application" && slash != std::string::npos && t.substr((plus == std::string::npos ? slash : plus) + 1) == "json";
    }

    inline Val generated(const std::string& content, const char* klass, const std::string& type)
    {
        return str(content).named("asset").metaOf("classes", arr({ str(klass) })).attr("contentType", str(type));
    }

    using Headers = std::vector<std::pair<std::string, std::string> >;

    inline Val payload(const Payload* p, const std::string& method, const Models& models, const Headers& above = {})
    {
        const bool request = !method.empty();
        Val v = list(request ? "httpRequest" : "httpResponse");
        if (request)
            v = v.attr("method", str(method));
        if (!p)
            return v;
        if (request && !p->name.empty())
            v = v.metaOf("title", str(p->name));
        if (!request)
            v = v.attr("statusCode", str(p->name.empty() ? "200" : p->name));
        const Payload& q = p->model.empty() ? *p : models.at(p->model);
        if (!q.parameters.empty())
            v = v.attr("hrefVariables", parameters(q.parameters));
        Val headers = list("httpHeaders");
        auto header = [&](const std::string& name, const std::string& value) { headers.kids.push_back(em::mem(name, str(value))); };
        for (auto& h : above)
            header(h.first, h.second);
        if (p != &q && !p->type.empty() && contentType(q).empty())
            header("Content-Type", p->type);
        if (!q.type.empty())
            header("Content-Type", q.type);
        for (auto& h : q.headers)
            header(h.first, h.second);
        Payload over;
        over.headers = above;
        std::string type = contentType(over);
        if (type.empty())
            type = contentType(q);
        if (type.empty())
            type = p->type;
        if (!headers.kids.empty())
            v = v.attr("headers", headers);
        copy(v, q.description);
        if (q.attributes.is)
            v.kids.push_back(structure(q.attributes.element));
        if (!q.body.empty())
            v.kids.push_back(asset(q.body, "messageBody", type.find('/') != std::string::npos ? type : ""));
        else if (!p->madeBody.empty())
            v.kids.push_back(generated(p->madeBody, "messageBody", type));
        if (q.schema.empty() && !p->madeSchema.empty())
            v.kids.push_back(generated(p->madeSchema, "messageBodySchema", "application/schema+json"));
        if (!q.schema.empty())
            v.kids.push_back(asset(q.schema, "messageBodySchema", isJson(type) ? "application/schema+json" : "text/plain"));
        return v;
    }

    inline Val action(const Action& a, const Models& models, Headers above = {})
    {
        Val t = list("transition").metaOf("title", str(a.name));
        if (!a.relation.empty())
            t = t.attr("relation", str(a.relation));
        if (!a.uri.empty() && !(a.abbreviated && a.name.empty()))
            t = t.attr("href", str(a.uri));
        if (!a.parameters.empty())
            t = t.attr("hrefVariables", parameters(a.parameters));
        if (a.attributes.is)
            t = t.attr("data", structure(a.attributes.element));
        copy(t, a.description);
        above.insert(above.end(), a.oldHeaders.begin(), a.oldHeaders.end());
        // requests up to the responses to all of them
        std::vector<const Payload*> requests, responses;
        auto flush = [&] {
            auto transaction = [&](const Payload* q, const Payload* s) {
                Val x = list("httpTransaction");
                x.kids.push_back(payload(q, a.method, models, above));
                x.kids.push_back(payload(s, "", models, above));
                t.kids.push_back(x);
            };
            if (requests.empty())
                for (auto s : responses)
                    transaction(nullptr, s);
            for (auto q : requests) {
                if (responses.empty())
                    transaction(q, nullptr);
                for (auto s : responses)
                    transaction(q, s);
            }
            requests.clear();
            responses.clear();
        };
        for (auto& p : a.payloads) {
            if (p.request && !responses.empty())
                flush();
            (p.request ? requests : responses).push_back(&p);
        }
        flush();
        return t;
    }

    inline Val resource(const Resource& r, const Models& models)
    {
        Val v = list("resource");
        if (r.actions.size() == 1 && r.actions[0].abbreviated)
            v = v.metaOf("title", str(r.actions[0].name)).attr("href", str(r.actions[0].uri));
        else
            v = v.metaOf("title", str(r.name)).attr("href", str(r.uri));
        if (!r.parameters.empty())
            v = v.attr("hrefVariables", parameters(r.parameters));
        copy(v, r.description);
        if (r.attributes.is)
            v.kids.push_back(structure(r.attributes.element));
        for (auto& a : r.actions)
            v.kids.push_back(action(a, models, r.oldHeaders));
        return v;
    }

    inline Val elements(const Api& a)
    {
        Models models;
        auto each = [&](const std::vector<Resource>& rs) {
            for (auto& r : rs)
                if (r.hasModel)
                    models[r.name] = r.model;
        };
        each(a.loose);
        for (auto& g : a.groups)
            each(g.resources);
        Val v = list("category").metaOf("classes", arr({ str("api") })).metaOf("title", str(a.name));
        if (!a.metadata.empty()) {
            Val m = arr();
            for (auto& x : a.metadata)
                m.kids.push_back(em::mem(x.first, str(x.second)).metaOf("classes", arr({ str("user") })));
            v = v.attr("metadata", m);
        }
        copy(v, a.description);
        auto types = [&] {
            if (a.structures.empty())
                return;
            Val c = list("category").metaOf("classes", arr({ str("dataStructures") }));
            for (auto& t : a.structures)
                c.kids.push_back(structure(t));
            v.kids.push_back(c);
        };
        if (a.typesFirst)
            types();
        for (auto& r : a.loose)
            v.kids.push_back(resource(r, models));
        if (!a.typesFirst)
            types();
        for (auto& g : a.groups) {
            Val c = list("category").metaOf("classes", arr({ str("resourceGroup") })).metaOf("title", str(g.name));
            copy(c, g.description);
            for (auto& r : g.resources)
                c.kids.push_back(resource(r, models));
            v.kids.push_back(c);
        }
        return v;
    }

    // --- what was parsed, without source maps, in any order of attributes

    inline Val bare(const Val& v)
    {
        Val o = v;
        o.attrs.clear();
        o.meta.clear();
        o.kids.clear();
        auto copy = [](const em::Info& from, em::Info& to) {
            std::map<std::string, Val> sorted;
            for (auto& e : from)
                if (e.first != "sourceMap")
                    sorted[e.first] = bare(e.second);
            for (auto& e : sorted)
                to.emplace_back(e.first, e.second);
        };
        copy(v.attrs, o.attrs);
        copy(v.meta, o.meta);
        for (auto& k : v.kids)
            o.kids.push_back(bare(k));
        return o;
    }

    // where two differ
    inline std::string difference(const Val& got, const Val& want, const std::string& at = "")
    {
        if (em::dump(got) == em::dump(want))
            return "";
        const std::string here = at + "/" + want.name;
        if (got.name == want.name && got.kids.size() == want.kids.size() && got.has == want.has) {
            Val a = got, b = want;
            a.kids.clear();
            b.kids.clear();
            if (em::dump(a) == em::dump(b))
                for (std::size_t i = 0; i < got.kids.size(); ++i) {
                    auto d = difference(got.kids[i], want.kids[i], here + "[" + std::to_string(i) + "]");
                    if (!d.empty())
                        return d;
                }
        }
        for (auto i : { 0, 1 }) {
            auto &g = i ? got.attrs : got.meta, &w = i ? want.attrs : want.meta;
            for (std::size_t k = 0; k < g.size() && g.size() == w.size() && got.name == want.name; ++k)
                if (g[k].first != w[k].first || em::dump(g[k].second) != em::dump(w[k].second))
                    return here + " " + g[k].first + "/" + w[k].first + ": " + difference(g[k].second, w[k].second);
        }
        return here + ": is " + em::dump(got) + ", expected " + em::dump(want);
    }

    // one new line where copies have more
    inline Val tight(const Val& v)
    {
        Val o = v;
        if (o.name == "copy") {
            std::string t;
            for (char c : o.text)
                if (c != '\n' || t.empty() || t.back() != '\n')
                    t += c;
            o.text = t;
        }
        for (auto& k : o.kids)
            k = tight(k);
        return o;
    }

    // parses, compares, and gives back the annotations
    inline std::vector<Val> check(mc::Ctx& ctx, const std::string& doc, const Val& want, bool loose = false, const Val* known = nullptr, const drafter_parse_options* options = nullptr, const char* knownAs = "F24")
    {
        std::vector<Val> notes;
        auto p = docs::parse(doc, options);
        if (!ctx.expect(p.result != nullptr, "no result"))
            return notes;
        const Val v = em::read(*p.result);
        for (auto& k : v.kids)
            if (k.name == "annotation")
                notes.push_back(k);
        ctx.step();
        if (p.code || v.kids.empty() || v.kids[0].name != "category") {
            ctx.violation("error " + std::to_string(p.code) + (notes.empty() ? "" : ": " + notes[0].text));
            return notes;
        }
        const Val got = loose ? tight(bare(v.kids[0])) : bare(v.kids[0]), expected = loose ? tight(bare(want)) : bare(want);
        if (em::dump(got) != em::dump(expected)) {
            if (known && em::dump(got) == em::dump(loose ? tight(bare(*known)) : bare(*known)))
                ctx.finding(knownAs, difference(got, expected));
            else
                ctx.violation(difference(got, expected));
        }
        ctx.state(doc);
        ctx.outcome(em::dump(got));
        ctx.trace();
        return notes;
    }
}

#endif
