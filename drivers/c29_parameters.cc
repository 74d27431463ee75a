// C29: URI parameters have what their items say, and those without a place in the URI are remarked on.
#include "api.hpp"

using namespace api;

namespace
{
    enum { Redefinition = 4, Logical = 8, URI = 12 };

    void one(mc::Ctx& ctx, const Api& a, std::vector<unsigned> expected, const Api* means = nullptr)
    {
        const std::string doc = text(a);
        if (!ctx.begin(mc::quote(doc)))
            return;
        std::vector<unsigned> got;
        std::string t;
        for (auto& n : check(ctx, doc, elements(means ? *means : a)))
            for (auto& x : n.attrs)
                if (x.first == "code" && x.second.text != "12") { // on URI templates
                    got.push_back(unsigned(std::stoul(x.second.text)));
                    t += " '" + n.text + "'";
                }
        std::sort(got.begin(), got.end());
        std::sort(expected.begin(), expected.end());
        if (got != expected) {
            t = "annotations:" + t + ", expected codes";
            for (auto c : expected)
                t += " " + std::to_string(c);
            ctx.violation(t);
        }
        ctx.sample(mc::quote(doc), 1);
    }

    // parameters of a resource, of an action of it with a URI, or of a request
    Api with(const std::vector<Parameter>& ps, int place, const std::string& uri)
    {
        Api a;
        a.name = "A";
        Resource r;
        r.name = "R";
        r.uri = place == 1 ? "/r" : uri;
        Action x;
        x.name = "X";
        x.method = "GET";
        if (place == 1)
            x.uri = uri;
        Payload q;
        q.request = true;
        q.name = "Q";
        if (place == 2)
            q.parameters = ps;
        Payload s;
        s.name = "204";
        x.payloads = { s };
        if (place == 2)
            x.payloads.insert(x.payloads.begin(), q);
        (place == 1 ? x.parameters : r.parameters) = place == 2 ? std::vector<Parameter>() : ps;
        r.actions = { x };
        a.loose = { r };
        return a;
    }

    // what is remarked about one
    void remarks(const Parameter& p, std::vector<unsigned>& notes)
    {
        if (!p.optional && !p.byDefault.empty())
            notes.push_back(Logical);
        bool example = p.example.empty(), byDefault = p.byDefault.empty();
        for (auto& v : p.values) {
            example = example || v == p.example;
            byDefault = byDefault || v == p.byDefault;
        }
        if (!p.values.empty() && (!example || !byDefault))
            notes.push_back(Logical);
    }

    void every(bool rich, const std::function<void(const Parameter&)>& use)
    {
        const std::vector<std::string> names = rich ? std::vector<std::string>{ "id", "a_b.c-d", "`a_b.c-d`", "%20x", "`q`" } : std::vector<std::string>{ "id", "q" };
        for (auto& name : names)
            for (bool old : { false, true })
                for (auto type : { "", "string", "number", "Own Type" })
                    for (int use_ = 0; use_ < 3; ++use_)
                        for (auto example : { "", "a", "two words" })
                            for (auto byDefault : { "", "a", "c" })
                                for (auto description : { "", "A text.", "with `code` (and) - more: this" })
                                    for (auto more : { "", "Further text." })
                                        for (int values = 0; values < 3; ++values) {
                                            if (!rich && (*more || type[0] == 'O' || values == 1 || (example[0] && example[1])))
                                                continue;
                                            Parameter p;
                                            p.name = name;
                                            p.old = old;
                                            p.type = type;
                                            p.optional = use_ == 1;
                                            p.required = use_ == 2;
                                            p.example = example;
                                            p.byDefault = byDefault;
                                            p.description = description;
                                            p.more = more;
                                            if (values)
                                                p.values = { "a" };
                                            if (values == 2)
                                                p.values.push_back("b");
                                            if (values && !old)
                                                p.type = p.type.empty() ? "enum[string]" : "enum[" + p.type + "]";
                                            // a dash ends a name, but for in backticks
                                            if (old ? name[0] == '`' : name == "a_b.c-d")
                                                continue;
                                            // nothing tells of the syntax
                                            if (old && name.find('-') != std::string::npos && p.byDefault.empty() && p.example.empty() && p.values.empty())
                                                continue;
                                            use(p);
                                        }
    }

    // as parsed
    Parameter bared(Parameter p)
    {
        if (p.name[0] == '`')
            p.name = p.name.substr(1, p.name.size() - 2);
        return p;
    }
}

SCENARIO("features", 8)
{
    every(true, [&](const Parameter& p) {
        for (int place = 0; place < 3; ++place) {
            if (!ctx.mine() || ctx.full())
                return;
            std::vector<unsigned> notes;
            remarks(p, notes);
            const Parameter b = bared(p);
            if (place < 2 && b.name.find('-') != std::string::npos)
                notes.push_back(Logical); // not a name in a URI template
            const Api a = with({ p }, place, "/{" + b.name + "}"), m = with({ b }, place, "/{" + b.name + "}");
            one(ctx, a, notes, &m);
        }
    });
}

SCENARIO("pairs", 8)
{
    // every pair, of different names and of one
    std::vector<Parameter> all;
    every(false, [&](const Parameter& p) {
        if (ctx.thorough || (p.description.size() < 8 && p.type.find("number") == std::string::npos && p.byDefault != "a" && (p.values.empty() || p.example.empty())))
            all.push_back(p);
    });
    for (std::size_t i = 0; i < all.size(); ++i)
        for (std::size_t j = 0; j < all.size(); ++j) {
            if (!ctx.mine() || ctx.full())
                continue;
            std::vector<unsigned> notes;
            remarks(all[i], notes);
            remarks(all[j], notes);
            std::vector<Parameter> means{ all[i], all[j] };
            if (all[i].name == all[j].name) {
                means.erase(means.begin());
                notes.push_back(Redefinition);
            }
            const int place = int((i + j) % 3);
            const Api a = with({ all[i], all[j] }, place, "/{id}{?q}"), m = with(means, place, "/{id}{?q}");
            one(ctx, a, notes, &m);
        }
}

SCENARIO("texts", 8)
{
    // every example, default and value over an alphabet
    const std::vector<std::string> alphabet{ "a", " ", ",", "(", ")", "-", ":", "%", "\xC3\xA9", "\"", "*", "_", "[", "]", "1" };
    const unsigned max = ctx.thorough ? 4 : 3;
    for (unsigned len = 1; len <= max; ++len) {
        std::vector<unsigned> at(len, 0);
        for (;;) {
            std::string t;
            for (auto i : at)
                t += alphabet[i];
            if (t[0] != ' ' && t.back() != ' ' && t != "*")
                for (int what = 0; what < 6; ++what) {
                    if (!ctx.mine() || ctx.full())
                        continue;
                    Parameter p;
                    p.name = "id";
                    p.old = what >= 3;
                    p.optional = true;
                    switch (what % 3) {
                        case 0:
                            p.example = t;
                            break;
                        case 1:
                            p.byDefault = t;
                            break;
                        case 2:
                            p.values = { t, "z" };
                            if (!p.old)
                                p.type = "enum[string]";
                            break;
                    }
                    one(ctx, with({ p }, 0, "/{id}"), {});
                }
            unsigned i = 0;
            while (i < len && ++at[i] == alphabet.size())
                at[i++] = 0;
            if (i == len)
                break;
        }
    }
}

SCENARIO("templates", 8)
{
    // every template of up to two expressions, with every set of parameters
    const std::vector<std::pair<std::string, std::string> > vars{ { "a", "a" }, { "b*", "b" }, { "c:3", "c" }, { "a.b", "a.b" }, { "x%20y", "x%20y" }, { "b", "b" } };
    std::vector<std::pair<std::string, std::vector<std::string> > > expressions{ { "", {} } };
    for (auto op : { "", "+", "#", "?", "&", "/", ".", ";" })
        for (std::size_t i = 0; i < vars.size(); ++i) {
            expressions.push_back({ std::string("{") + op + vars[i].first + "}", { vars[i].second } });
            for (std::size_t j = 0; j < vars.size(); ++j)
                if (j != i)
                    expressions.push_back({ std::string("{") + op + vars[i].first + "," + vars[j].first + "}", { vars[i].second, vars[j].second } });
        }
    const std::vector<std::string> names{ "a", "b", "c", "a.b", "x%20y" };
    for (std::size_t i = 0; i < expressions.size(); ++i)
        for (std::size_t j = 0; j < expressions.size(); ++j)
            for (unsigned set = 1; set < 32; ++set) {
                // quick: two only of one variable each, and with one parameter or all
                if (!ctx.thorough && i && j && (expressions[i].second.size() > 1 || expressions[j].second.size() > 1 || ((set & (set - 1)) && set != 31)))
                    continue;
                if (!ctx.mine() || ctx.full())
                    continue;
                std::vector<Parameter> ps;
                std::vector<unsigned> notes;
                for (unsigned k = 0; k < names.size(); ++k)
                    if (set >> k & 1) {
                        Parameter p;
                        p.name = names[k];
                        p.example = "1";
                        ps.push_back(p);
                        bool found = false;
                        for (auto* e : { &expressions[i], &expressions[j] })
                            for (auto& v : e->second)
                                found = found || v == p.name;
                        if (!found)
                            notes.push_back(Logical);
                    }
                one(ctx, with(ps, int(j % 2), "/x" + expressions[i].first + "/y" + expressions[j].first), notes);
            }
}

SCENARIO("traits", 8)
{
    // every sequence of traits
    struct Trait {
        const char *text, *means;
        int kind; // 0 use, 1 type, 2 example
    };
    const std::vector<Trait> traits{ { "optional", "", 0 }, { "required", "", 0 }, { "Optional", "", 0 }, { "Required", "", 0 }, { "string", "string", 1 }, { "Own Type", "Own Type", 1 }, { "enum[number]", "number", 1 },
        { "enum[ Own Type ]", "Own Type", 1 }, { "`a`", "a", 2 }, { "`two words`", "two words", 2 } };
    for (bool old : { false, true })
        for (unsigned len = 1; len <= 4; ++len) {
            std::vector<unsigned> at(len, 0);
            for (;;) {
                unsigned n[3] = {};
                Parameter p;
                for (unsigned k : at) {
                    const Trait& t = traits[k];
                    ++n[t.kind];
                    p.traits += (p.traits.empty() ? "" : ", ") + std::string(t.text);
                    if (t.kind == 0)
                        p.optional = (t.text[0] | 0x20) == 'o';
                    else
                        (t.kind == 1 ? p.type : p.example) = t.means;
                }
                bool wrapped = false;
                for (unsigned k : at)
                    wrapped = wrapped || traits[k].text[0] == 'e';
                // an enum[] is of the one syntax, an example of the other; two uses or examples are neither's
                if (n[0] < 2 && n[2] < 2 && (old ? !wrapped : !n[2]))
                    for (int more = 0; more < 3; ++more) {
                        if (!ctx.mine() || ctx.full())
                            continue;
                        Parameter q = p;
                        q.name = "id";
                        q.old = old;
                        q.byDefault = more == 1 ? "d" : "";
                        if (old && !n[2] && more != 1)
                            q.values = { "a" };
                        if (more == 2)
                            q.description = "A text.";
                        std::vector<unsigned> notes;
                        Parameter means = q;
                        if (len > (old ? 3u : 2u) || n[1] > 1) {
                            means.optional = false;
                            means.type = "";
                            means.example = "";
                            notes.push_back(3);
                        }
                        const Api a = with({ q }, 0, "/{id}");
                        remarks(means, notes);
                        const Api m = with({ means }, 0, "/{id}");
                        one(ctx, a, notes, &m);
                    }
                unsigned i = 0;
                while (i < len && ++at[i] == traits.size())
                    at[i++] = 0;
                if (i == len)
                    break;
            }
        }
}

SCENARIO("values", 8)
{
    // every list of values, after every other
    const std::vector<std::string> words{ "a", "b", "c d", "" };
    std::vector<std::vector<std::string> > lists;
    for (auto& x : words)
        for (auto& y : words)
            for (auto& z : words) {
                std::vector<std::string> l;
                for (auto* w : { &x, &y, &z })
                    if (!w->empty())
                        l.push_back(*w);
                if (std::find(lists.begin(), lists.end(), l) == lists.end())
                    lists.push_back(l);
            }
    for (bool old : { false, true })
        for (auto& before : lists)
            for (auto& values : lists)
                for (auto example : { "", "a", "b" })
                    for (auto byDefault : { "", "a", "c d" }) {
                        if (values.empty() || !ctx.mine() || ctx.full())
                            continue;
                        Parameter p;
                        p.name = "id";
                        p.old = old;
                        p.optional = true;
                        if (!old)
                            p.type = "enum[string]";
                        p.before = before;
                        p.values = values;
                        p.example = example;
                        p.byDefault = byDefault;
                        std::vector<unsigned> notes;
                        remarks(p, notes);
                        if (old && !before.empty())
                            notes.push_back(Redefinition);
                        one(ctx, with({ p }, 0, "/{id}"), notes);
                    }
}

MC_MAIN
