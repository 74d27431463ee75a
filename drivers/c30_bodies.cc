// C30: the JSON value generated for a type, and its JSON Schema.
#include "elems.hpp"
#include "jv.hpp"
#include "schema.hpp"
#include "refract/JsonSchema.h"
#include "refract/JsonValue.h"
#include "utils/so/JsonIo.h"
#include <deque>
#include <unordered_map>

using namespace em;
using jv::J;

namespace
{
    const Val* at(const Info& i, const std::string& k)
    {
        for (auto& e : i)
            if (e.first == k)
                return &e.second;
        return nullptr;
    }

    bool is(const Val& v, const char* a)
    {
        auto t = at(v.attrs, "typeAttributes");
        if (t)
            for (auto& x : t->kids)
                if (x.text == a)
                    return true;
        return false;
    }

    const Val* sampled(const Val& v) // the sample or default
    {
        if (auto s = at(v.attrs, "samples"))
            if (!s->kids.empty())
                return &s->kids[0];
        return at(v.attrs, "default");
    }

    bool defines(const Val& v)
    {
        return v.has || sampled(v);
    }

    bool variable(const Val& m)
    {
        auto x = at(m.attrs, "variable");
        return x && x->text == "true";
    }

    // types that live as long as the case does
    std::deque<Val> kept;
    std::unordered_map<const Val*, const Val*> chains;

    // the type all in all: later ones override
    const Val& merged(const Val& v)
    {
        if (v.kind == Ref)
            return merged(*at(v.attrs, "resolved"));
        if (v.kind == Holder)
            return merged(v.kids[0]);
        if (v.kind != Extend)
            return v;
        auto it = chains.find(&v);
        if (it != chains.end())
            return *it->second;
        Val o = merged(v.kids[0]);
        for (std::size_t i = 1; i < v.kids.size(); ++i) {
            const Val& k = merged(v.kids[i]);
            for (auto& a : k.attrs) {
                bool found = false;
                for (auto& b : o.attrs)
                    if (a.first == b.first) {
                        found = true;
                        if (a.first == "enumerations")
                            b.second.kids.insert(b.second.kids.end(), a.second.kids.begin(), a.second.kids.end());
                        else
                            b.second = a.second;
                    }
                if (!found)
                    o.attrs.push_back(a);
            }
            if (!k.has)
                continue;
            o.has = true;
            if (o.kind != Array && o.kind != Object) {
                o.text = k.text;
                o.kids = k.kids;
                continue;
            }
            for (auto& m : k.kids) {
                bool found = false;
                for (auto& n : o.kids)
                    if (m.kind == Member && n.kind == Member && m.kids[0].kind == String && m.kids[0].text == n.kids[0].text) {
                        n = m;
                        found = true;
                        break;
                    }
                if (!found)
                    o.kids.push_back(m);
            }
        }
        kept.push_back(o);
        chains[&v] = &kept.back();
        return kept.back();
    }

    // does being fixed pass on to it?
    bool inherits(const Val& x)
    {
        if (x.kind == Ref || x.kind == Holder || x.kind == Select)
            return true;
        const Val& v = merged(x);
        switch (v.kind) {
            case Object:
            case Null:
                return true;
            case Member:
                return !variable(v) && inherits(v.kids[1]);
            case Enum:
                return v.has ? inherits(v.kids[0]) : at(v.attrs, "default") != nullptr;
            default:
                return defines(v);
        }
    }

    // what is known to be wrong (known_findings.jsonl)
    enum Quirk {
        anyOption = 1,  // not the schema: a One Of whose options are not exclusive
        everyKey = 2,   // a member with any key says what every other member is
        hidden = 4,     // a closed object does not know the members of its One Of
        skipped = 8,    // not the schema: a fixed array's value lacks members without a value
    };
    unsigned quirks = 0;

    // what the type, in such a place, looks like
    struct Place {
        bool fixed = false, fixedType = false, nullable = false, required = false;
    };

    // a member of an array that says nothing but its type
    bool skippable(const Val& k)
    {
        return (k.kind == String || k.kind == Number || k.kind == Boolean) && !defines(k) && !is(k, "fixed");
    }

    J literal(const Val& v)
    {
        return v.kind == Number ? jv::num(v.text) : v.kind == String ? jv::str(v.text) : J(v.text == "true" ? jv::True : jv::False);
    }

    J value(const Val& x, Place p);

    std::string keyOf(const Val& x)
    {
        const Val& k = merged(x);
        return k.has ? k.text : sampled(k) ? keyOf(*sampled(k)) : "";
    }

    void members(const Val& x, Place p, J& o)
    {
        const Val& v = merged(x);
        auto put = [&](const std::string& k, const J& j) { // the last one of a name
            for (auto& m : o.members)
                if (m.first == k) {
                    m.second = j;
                    return;
                }
            o.members.emplace_back(k, j);
        };
        switch (v.kind) {
            case Member: {
                p.fixed = p.fixed || is(v, "fixed");
                p.nullable = is(v, "nullable");
                const std::string key = keyOf(v.kids[0]);
                if (key.empty())
                    return;
                if (is(v, "optional") && !defines(merged(v.kids[1]))) {
                    for (std::size_t i = 0; i < o.members.size(); ++i)
                        if (o.members[i].first == key)
                            o.members.erase(o.members.begin() + i);
                    return;
                }
                put(key, value(v.kids[1], p));
                break;
            }
            case Object: { // mixed in
                p.fixed = p.fixed || is(v, "fixed");
                Place q;
                for (auto& k : v.kids) {
                    q.fixed = p.fixed && inherits(k);
                    members(k, q, o);
                }
                if (!v.has) {
                    const J j = value(v, p);
                    for (auto& m : j.members)
                        put(m.first, m.second);
                }
                break;
            }
            case Select:
                for (auto& option : v.kids)
                    if (!option.kids.empty()) {
                        for (auto& k : option.kids)
                            members(k, p, o);
                        break;
                    }
                break;
            default:
                break;
        }
    }

    J value(const Val& x, Place p)
    {
        const Val& v = merged(x);
        p.fixed = p.fixed || is(v, "fixed");
        p.nullable = p.nullable || is(v, "nullable");
        Place in;
        in.fixed = p.fixed;
        auto place = [&](const Val& k) {
            Place q;
            q.fixed = p.fixed && inherits(k);
            return q;
        };
        if (v.kind == Null)
            return J();
        if (!v.has) {
            if (auto s = sampled(v))
                return value(*s, p);
            if (p.nullable)
                return J();
        }
        switch (v.kind) {
            case String:
                return v.has ? literal(v) : jv::str("");
            case Number:
                return v.has ? literal(v) : jv::num("0");
            case Boolean:
                return v.has ? literal(v) : J(jv::False);
            case Array: {
                J o(jv::Array);
                for (auto& k : v.kids) {
                    const Val& m = merged(k);
                    if (k.kind == Ref) { // mixed in
                        for (auto& i : value(m, place(k)).items)
                            o.items.push_back(i);
                        continue;
                    }
                    if (skippable(k))
                        continue;
                    o.items.push_back(value(k, place(k)));
                }
                return o;
            }
            case Object: {
                J o(jv::Object);
                for (auto& k : v.kids)
                    members(k, place(k), o);
                return o;
            }
            case Enum:
                if (v.has)
                    return value(v.kids[0], in);
                if (auto e = at(v.attrs, "enumerations"))
                    if (!e->kids.empty())
                        return value(e->kids[0], p);
                return J();
            default:
                return J();
        }
    }

    bool accepts(const Val& x, Place p, const J& j);

    // how many values it allows: none, one or more
    unsigned many(const Val& x, bool fixed)
    {
        const Val& v = merged(x);
        auto nullable = [&](unsigned n) { return std::min(2u, n + is(v, "nullable")); };
        auto product = [&](const std::vector<Val>& l, bool f) {
            unsigned n = 1;
            for (auto& k : l)
                n = std::min(2u, n * many(k, f));
            return n;
        };
        auto sum = [&](const std::vector<Val>& l, bool f) {
            unsigned n = 0;
            for (auto& k : l)
                n = std::min(2u, n + many(k, f));
            return n;
        };
        const bool own = is(v, "fixed");
        switch (v.kind) {
            case Null:
                return 1;
            case String:
            case Number:
            case Boolean:
                return nullable(own || (fixed && defines(v)) ? 1 : 2);
            case Object:
                return nullable(fixed || own || is(v, "fixedType") ? product(v.kids, fixed || own) : 2);
            case Member:
                return nullable((variable(v) ? 2 : 1) * many(v.kids[1], fixed));
            case Array:
                if (fixed || own)
                    return nullable(product(v.kids, true));
                return nullable(is(v, "fixedType") && !v.has ? 0 : 2);
            case Enum: {
                auto e = at(v.attrs, "enumerations");
                return e && e->has && !e->kids.empty() ? nullable(sum(e->kids, fixed || own)) : 0;
            }
            case Select:
                return sum(v.kids, fixed);
            case Option:
                return product(v.kids, fixed);
            default:
                return 2;
        }
    }

    // the members an object may have: the last one of a name, in groups of which one is to fit
    struct Members {
        struct Named {
            const Val* type;
            Place place;
        };
        struct Pattern {
            const Val* type;
            Place place;
            bool fixed;
            std::string key;
        };
        std::map<std::string, Named> named;
        std::vector<Pattern> patterns;
        std::vector<std::vector<Members> > groups;

        bool knows(const std::string& k) const
        {
            if (named.count(k))
                return true;
            for (auto& p : patterns)
                if (!p.fixed || p.key == k)
                    return true;
            if (!(quirks & hidden))
                for (auto& g : groups)
                    for (auto& o : g)
                        if (o.knows(k))
                            return true;
            return false;
        }
        bool names(const std::string& k) const
        {
            if (named.count(k))
                return true;
            for (auto& p : patterns)
                if (p.fixed && p.key == k)
                    return true;
            for (auto& g : groups)
                for (auto& o : g)
                    if (o.names(k))
                        return true;
            return false;
        }
        bool fit(const J& j, const Members& whole) const
        {
            for (auto& n : named) {
                auto m = j.get(n.first);
                if (m ? !accepts(*n.second.type, n.second.place, *m) : n.second.place.required)
                    return false;
            }
            for (auto& p : patterns)
                for (auto& m : j.members)
                    if (p.fixed ? m.first == p.key : (quirks & everyKey) || !whole.names(m.first))
                        if (!accepts(*p.type, p.place, m.second))
                            return false;
            for (auto& g : groups) {
                if (g.empty()) // nothing to choose
                    continue;
                unsigned n = 0;
                for (auto& o : g)
                    n += o.fit(j, whole);
                if (quirks & anyOption ? !n : n != 1)
                    return false;
            }
            return true;
        }
    };

    void declare(const Val& x, Place p, Members& o)
    {
        const Val& v = merged(x);
        switch (v.kind) {
            case Member: {
                p.fixed = p.fixed || is(v, "fixed");
                p.fixedType = is(v, "fixedType");
                p.nullable = is(v, "nullable");
                p.required = (p.required || is(v, "required")) && !is(v, "optional");
                const Val& k = merged(v.kids[0]);
                if (variable(v)) {
                    const bool fixed = p.fixed || is(k, "fixed");
                    for (auto& q : o.patterns)
                        if (q.fixed == fixed && (!fixed || q.key == k.text)) {
                            q = Members::Pattern{ &v.kids[1], p, fixed, k.text };
                            return;
                        }
                    o.patterns.push_back(Members::Pattern{ &v.kids[1], p, fixed, k.text });
                } else
                    o.named[k.text] = Members::Named{ &v.kids[1], p };
                break;
            }
            case Object: {
                Place q;
                q.fixed = p.fixed || is(v, "fixed");
                q.required = p.required;
                for (auto& k : v.kids)
                    declare(k, q, o);
                break;
            }
            case Select: {
                o.groups.emplace_back();
                const auto n = o.groups.size() - 1;
                for (auto& option : v.kids)
                    if (!option.kids.empty()) {
                        Members m;
                        for (auto& k : option.kids)
                            declare(k, p, m);
                        o.groups[n].push_back(m);
                    }
                break;
            }
            default:
                break;
        }
    }

    bool accepts(const Val& x, Place p, const J& j)
    {
        const Val& v = merged(x);
        p.fixed = p.fixed || is(v, "fixed");
        p.fixedType = p.fixedType || is(v, "fixedType");
        p.nullable = p.nullable || is(v, "nullable");
        auto place = [&](const Val& k) {
            Place q;
            q.fixed = p.fixed && inherits(k);
            q.required = p.fixed || p.fixedType;
            return q;
        };
        if (v.kind == Null)
            return j.kind == jv::Null;
        if (p.nullable && j.kind == jv::Null)
            return true;
        switch (v.kind) {
            case String:
            case Number:
            case Boolean:
                if (p.fixed && v.has)
                    return js::same(j, literal(v));
                return v.kind == String ? j.kind == jv::String : v.kind == Number ? j.kind == jv::Number : j.kind == jv::True || j.kind == jv::False;
            case Array: {
                if (j.kind != jv::Array)
                    return false;
                if (p.fixedType) {
                    for (auto& i : j.items) {
                        bool any = false;
                        for (auto& k : v.kids)
                            any = any || accepts(k, place(k), i);
                        if (!any)
                            return false;
                    }
                } else if (p.fixed) {
                    if (quirks & skipped && j.items.size() < v.kids.size()) {
                        Val o = v;
                        o.kids.clear();
                        for (auto& k : v.kids)
                            if (!skippable(k))
                                o.kids.push_back(k);
                        if (o.kids.size() < v.kids.size()) {
                            kept.push_back(o);
                            return accepts(kept.back(), p, j);
                        }
                    }
                    if (j.items.size() != v.kids.size())
                        return false;
                    for (std::size_t i = 0; i < v.kids.size(); ++i)
                        if (!accepts(v.kids[i], place(v.kids[i]), j.items[i]))
                            return false;
                }
                return true;
            }
            case Object: {
                if (j.kind != jv::Object)
                    return false;
                Members known;
                for (auto& k : v.kids)
                    declare(k, place(k), known);
                if (!known.fit(j, known))
                    return false;
                if (p.fixed || p.fixedType)
                    for (auto& m : j.members)
                        if (!known.knows(m.first))
                            return false;
                return true;
            }
            case Enum: {
                if (auto e = at(v.attrs, "enumerations"))
                    for (auto& k : e->kids) {
                        Place q;
                        q.fixed = p.fixed;
                        if (many(k, false) == 1 ? js::same(value(k, Place()), j) : accepts(k, q, j))
                            return true;
                    }
                return false;
            }
            default:
                return false;
        }
    }

    // values to try: some of every kind, and all next to one
    const std::vector<J>& few(unsigned depth)
    {
        static const std::vector<J> inside{ J(), J(jv::True), jv::num("1"), jv::num("2"), jv::str(""), jv::str("s"), jv::arr({}), jv::obj({}) };
        static const std::vector<J> outside{ J(), J(jv::True), J(jv::False), jv::num("1"), jv::num("2"), jv::num("0"), jv::str(""), jv::str("s"), jv::str("t"), jv::arr({}), jv::arr({ jv::str("s") }), jv::obj({}), jv::obj({ { "k0", jv::str("s") } }) };
        return depth ? inside : outside;
    }

    void near(const J& j, const std::function<void(const J&)>& use, unsigned depth = 0)
    {
        for (auto& f : few(depth))
            use(f);
        if (j.kind == jv::Array) {
            for (std::size_t i = 0; i <= j.items.size(); ++i) {
                J o = j;
                if (i < j.items.size()) {
                    o.items.erase(o.items.begin() + i);
                    use(o);
                    near(j.items[i],
                        [&](const J& x) {
                            J p = j;
                            p.items[i] = x;
                            use(p);
                        },
                        depth + 1);
                } else
                    for (auto& f : few(depth)) {
                        J p = j;
                        p.items.push_back(f);
                        use(p);
                    }
            }
        }
        if (j.kind == jv::Object) {
            for (std::size_t i = 0; i < j.members.size(); ++i) {
                J o = j;
                o.members.erase(o.members.begin() + i);
                use(o);
                near(j.members[i].second,
                    [&](const J& x) {
                        J p = j;
                        p.members[i].second = x;
                        use(p);
                    },
                    depth + 1);
            }
            for (auto k : { "k0", "k1", "x", "xk0", "s" })
                if (!j.get(k))
                    for (auto& f : few(depth)) {
                        J p = j;
                        p.members.emplace_back(k, f);
                        use(p);
                        if (depth == 0)
                            for (auto l : { "k1", "y" })
                                if (!p.get(l)) {
                                    J q = p;
                                    q.members.emplace_back(l, jv::str("s"));
                                    use(q);
                                }
                    }
        }
    }

    // is it what is known?
    bool explained(mc::Ctx& ctx, const std::function<bool(unsigned)>& by, unsigned among)
    {
        for (unsigned q = 1; q <= among; ++q) // few before many
            if ((q & among) == q && by(q)) {
                if (q & anyOption)
                    ctx.finding("F26", "the value of a type with a One Of fits more than one of the options");
                if (q & everyKey)
                    ctx.finding("F27", "the type of a member with any key is asked of the other members as well");
                if (q & hidden)
                    ctx.finding("F28", "a closed object refuses the members of its One Of");
                if (q & skipped)
                    ctx.finding("F29", "the value of a fixed array lacks the members without a value of their own");
                return true;
            }
        return false;
    }

    bool named(const Val& x, const std::string& key)
    {
        const Val& v = merged(x);
        if (v.kind == Member)
            return merged(v.kids[0]).text == key;
        for (auto& k : v.kids)
            if (named(k, key))
                return true;
        return false;
    }

    // does it have a sample or default that could be at odds with the type?
    bool told(const Val& x)
    {
        const Val& v = merged(x);
        if (!v.has && sampled(v))
            return true;
        if (v.kind == Object) { // members with any key of two types, or
            unsigned n = 0;
            for (auto& k : v.kids)
                if (k.kind == Member && variable(k)) {
                    ++n;
                    for (auto& m : v.kids)
                        if (&m != &k && named(m, keyOf(k.kids[0])))
                            return true;
                }
            if (n > 1)
                return true;
        }
        if (v.kind == Object) // a member whose name is one in a One Of as well
            for (auto& g : v.kids)
                if (g.kind == Select)
                    for (auto& k : v.kids)
                        if (k.kind == Member && named(g, k.kids[0].text))
                            return true;
        if (auto e = at(v.attrs, "enumerations"))
            for (auto& k : e->kids)
                if (told(k))
                    return true;
        for (auto& k : v.kids)
            if (told(k))
                return true;
        return v.kind == Enum && (v.has || is(v, "fixed") || !many(v, false));
    }

    // has it a One Of whose options are all empty?
    bool nothingToChoose(const Val& x)
    {
        const Val& v = merged(x);
        if (v.kind == Select && std::all_of(v.kids.begin(), v.kids.end(), [](const Val& o) { return o.kids.empty(); }))
            return true;
        if (auto e = at(v.attrs, "enumerations"))
            for (auto& k : e->kids)
                if (nothingToChoose(k))
                    return true;
        for (auto& k : v.kids)
            if (nothingToChoose(k))
                return true;
        return false;
    }
    // the schema less the choices of nothing, and whether there were any
    bool less(J& s)
    {
        bool any = false;
        if (s.kind == jv::Object)
            for (auto i = s.members.begin(); i != s.members.end();) {
                auto& a = i->second;
                if (i->first == "allOf" && a.kind == jv::Array)
                    a.items.erase(std::remove_if(a.items.begin(), a.items.end(), [&](const J& x) {
                        const bool none = x.kind == jv::Object && x.members.size() == 1 && x.members[0].first == "oneOf" && x.members[0].second.kind == jv::Array && x.members[0].second.items.empty();
                        any = any || none;
                        return none;
                    }),
                        a.items.end());
                any = less(a) || any;
                if (i->first == "allOf" && a.kind == jv::Array && a.items.empty())
                    i = s.members.erase(i);
                else
                    ++i;
            }
        for (auto& x : s.items)
            any = less(x) || any;
        return any;
    }

    void one(mc::Ctx& ctx, const Val& v, std::uint64_t n)
    {
        auto describe = [&] { return dump(v); };
        if (!ctx.beginN(n, describe))
            return;
        kept.clear();
        chains.clear();
        auto e = build(v);
        J got, s;
        try {
            std::ostringstream a, b;
            drafter::utils::so::serialize_json(a, refract::generateJsonValue(*e));
            got = jv::readJson(a.str());
            drafter::utils::so::serialize_json(b, drafter::utils::so::Value(refract::schema::generateJsonSchema(*e)));
            s = jv::readJson(b.str());
        } catch (const jv::Bad& bad) {
            ctx.violation(std::string("not JSON: ") + bad.what());
            return;
        }
        const J want = value(v, Place());
        ctx.expect(got == want, "the value is " + jv::show(got) + ", expected " + jv::show(want));
        if (nothingToChoose(v) && less(s))
            ctx.finding("F33", "'oneOf' of no schemas");
        const auto bad = js::malformed(s);
        if (!ctx.expect(bad.empty() && s.get("$schema"), "no schema: " + bad + ": " + jv::show(s)))
            return;
        const bool instance = js::valid(s, got);
        auto accept = [&](unsigned q, const J& j) {
            quirks = q;
            const bool is = accepts(v, Place(), j);
            quirks = 0;
            return is;
        };
        if (!instance) {
            if (accept(0, got) ? explained(ctx, [&](unsigned q) { return !accept(q, got); }, everyKey | hidden) : explained(ctx, [&](unsigned q) { return accept(q, got); }, anyOption | skipped))
                ;
            else // it has to be the type that says otherwise
                ctx.expect(!accept(0, got) && told(v), "the value " + jv::show(got) + " is no instance of the schema " + jv::show(s));
        }
        bool done = false;
        near(got, [&](const J& j) {
            const bool is = js::valid(s, j);
            if (!done && is != accept(0, j)) {
                done = true;
                if (!explained(ctx, [&](unsigned q) { return accept(q, j) == is; }, everyKey | hidden))
                    ctx.violation("the schema " + jv::show(s) + (is ? " allows " : " does not allow ") + jv::show(j));
            }
            ctx.step();
        });
        ctx.expect(dump(*e) == dump(v), "generating changed the type");
        ctx.outcome(jv::show(s));
        ctx.state(dump(v));
        ctx.trace();
    }

    std::vector<Val> leavesOf()
    {
        std::vector<Val> o;
        for (auto& base : { Val(String), str("s"), str(""), Val(Number), num("1"), Val(Boolean), boolean(true), boolean(false), null() })
            for (auto& t : { typed({}), typed({ "fixed" }), typed({ "nullable" }), typed({ "fixedType" }), typed({ "nullable", "fixed" }) }) {
                const Val v = t.kids.empty() ? base : base.attr("typeAttributes", t);
                o.push_back(v);
                Val a = base, b = base;
                if (base.kind == String) {
                    a = str("a");
                    b = str("b");
                } else if (base.kind == Number) {
                    a = num("7");
                    b = num("8");
                } else if (base.kind == Boolean)
                    a = b = boolean(true);
                o.push_back(v.attr("samples", arr({ a, b })));
                o.push_back(v.attr("default", b));
                o.push_back(v.attr("samples", arr({ a, b })).attr("default", b));
                o.push_back(v.attr("samples", arr({})).attr("default", b));
            }
        return o;
    }

    std::vector<Val> some()
    {
        return { Val(String), str("s"), Val(Boolean), null(), num("1").attr("typeAttributes", typed({ "fixed" })), Val(Number).attr("typeAttributes", typed({ "nullable" })),
            Val(Enum).attr("enumerations", arr({ str("s").attr("typeAttributes", typed({ "fixed" })), str("t").attr("typeAttributes", typed({ "fixed" })) })), Val(Number).attr("default", num("2")),
            Val(String).attr("typeAttributes", typed({ "fixed" })) };
    }

    const std::vector<Val>& ofTypes()
    {
        static const std::vector<Val> t{ typed({}), typed({ "fixed" }), typed({ "fixedType" }), typed({ "nullable" }), typed({ "fixed", "nullable" }), typed({ "fixedType", "nullable" }) };
        return t;
    }
    const std::vector<Val>& ofMembers()
    {
        static const std::vector<Val> t{ typed({}), typed({ "required" }), typed({ "optional" }), typed({ "nullable" }), typed({ "fixed" }), typed({ "fixedType" }), typed({ "required", "nullable" }), typed({ "optional", "fixed" }) };
        return t;
    }

    Val tell(const Val& v, const Val& t)
    {
        return t.kids.empty() ? v : v.attr("typeAttributes", t);
    }

    using Use = std::function<void(const Val&)>;

    // every array, object and enum of up to two of them
    void containers(const std::vector<Val>& kids, bool pairs, const Use& use)
    {
        std::vector<std::vector<Val> > lists{ {} };
        for (auto& a : kids) {
            lists.push_back({ a });
            if (pairs)
                for (auto& b : kids)
                    lists.push_back({ a, b });
        }
        for (auto& l : lists)
            for (auto& t : ofTypes()) {
                use(tell(arr(l), t));
                if (l.empty()) {
                    use(tell(Val(Array), t));
                    use(tell(Val(Array), t).attr("samples", arr({ arr({ str("s") }), arr({}) })));
                    use(tell(Val(Array), t).attr("default", arr({ num("1"), Val(String) })));
                    use(tell(Val(Object), t));
                    use(tell(Val(Object), t).attr("samples", arr({ obj({ mem("x", str("s")) }) })));
                    use(tell(obj(), t));
                } else {
                    use(tell(Val(Enum).attr("enumerations", arr(l)), t));
                    if (merged(l[0]).kind == String || merged(l[0]).kind == Number) {
                        use(tell(Val(Enum).attr("enumerations", arr(l)).attr("samples", arr({ Val(Enum, std::vector<Val>{ l.back() }) })), t));
                        use(tell(Val(Enum, std::vector<Val>{ l.back() }).attr("enumerations", arr(l)), t));
                    }
                }
            }
    }

    void objects(const std::vector<Val>& kids, bool pairs, const Use& use)
    {
        for (auto& a : kids)
            for (auto& m : ofMembers())
                for (auto& t : ofTypes()) {
                    use(tell(obj({ tell(mem("k0", a), m) }), t));
                    use(tell(obj({ tell(mem("k0", a), m).attr("variable", boolean(true)) }), t));
                    if (pairs)
                        for (auto& b : kids)
                            for (auto& n : ofMembers())
                                use(tell(obj({ tell(mem("k0", a), m), tell(mem("k1", b), n) }), t));
                }
    }

    void all(mc::Ctx& ctx, const std::function<void(const Use&)>& space)
    {
        std::uint64_t n = 0;
        space([&](const Val& v) {
            ++n;
            if (ctx.mine() && !ctx.full())
                one(ctx, v, n);
        });
    }
}

SCENARIO("leaves", 1)
{
    all(ctx, [&](const Use& use) {
        for (auto& v : leavesOf())
            use(v);
    });
}

SCENARIO("arrays", 8)
{
    all(ctx, [&](const Use& use) {
        containers(leavesOf(), false, use);
        containers(some(), true, use);
    });
}

SCENARIO("objects", 8)
{
    all(ctx, [&](const Use& use) {
        objects(leavesOf(), false, use);
        objects(some(), true, use);
    });
}

namespace
{
    Val resolved(const Val& v)
    {
        return ref("M").attr("resolved", v);
    }

    std::vector<Val> twoMembers(const std::vector<Val>& kids)
    {
        std::vector<Val> o;
        for (auto& k : kids)
            for (auto& t : { typed({}), typed({ "required" }), typed({ "optional" }), typed({ "fixed" }) })
                for (auto key : { "k0", "k1" })
                    o.push_back(tell(mem(key, k), t));
        return o;
    }

    std::vector<Val> few2()
    {
        return { Val(String), str("s"), Val(Number), boolean(true) };
    }
}

// members with any key, next to others
SCENARIO("variable", 4)
{
    all(ctx, [&](const Use& use) {
        std::vector<Val> keys;
        for (auto k : { "x", "k0", "s", "a.b", "" })
            for (auto& t : { typed({}), typed({ "fixed" }) })
                keys.push_back(tell(str(k), t));
        keys.push_back(Val(String));
        keys.push_back(Val(String).attr("samples", arr({ str("k0"), str("k1") })));
        keys.push_back(Val(String).attr("default", str("k0")));
        keys.push_back(Val(String).attr("typeAttributes", typed({ "fixed" })));
        keys.push_back(Val(Extend, std::vector<Val>{ Val(String), str("k0") }));
        for (auto& key : keys)
            for (auto& a : { Val(String), str("s"), Val(Number), obj({ mem("k0", str("s")) }) })
                for (auto& m : ofMembers())
                    for (auto& t : ofTypes()) {
                        const Val v = tell(mem(key, a), m).attr("variable", boolean(true));
                        use(tell(obj({ v }), t));
                        for (auto& b : twoMembers({ Val(String), num("1") })) {
                            use(tell(obj({ v, b }), t));
                            use(tell(obj({ b, v }), t));
                        }
                        use(tell(obj({ v, tell(mem("y", Val(Number)), m).attr("variable", boolean(true)) }), t));
                        use(tell(obj({ v, tell(mem(str("y").attr("typeAttributes", typed({ "fixed" })), Val(Number)), m).attr("variable", boolean(true)) }), t));
                        use(tell(obj({ mem("k1", Val(String)).attr("variable", boolean(false)), v }), t));
                    }
    });
}

// fixed keys with what means something in patterns
SCENARIO("patterns", 2)
{
    all(ctx, [&](const Use& use) {
        const std::string special = "^$*+?.()|{}[]\\/-a0 ";
        std::vector<std::string> keys{ "" };
        for (char a : special) {
            keys.push_back(std::string(1, a));
            for (char b : special)
                keys.push_back(std::string{ a, b });
        }
        for (auto& k : keys) {
            use(obj({ mem(str(k).attr("typeAttributes", typed({ "fixed" })), Val(Number)).attr("variable", boolean(true)) }));
            use(obj({ mem(str(k), Val(Number)).attr("variable", boolean(true)) }).attr("typeAttributes", typed({ "fixed" })));
            use(obj({ mem(str(k), num("1")), mem("x" + k, Val(Number)) }));
        }
    });
}

// One Of: up to three options of up to two members each, next to members
SCENARIO("choices", 8)
{
    all(ctx, [&](const Use& use) {
        std::vector<Val> options{ Val(Option, std::vector<Val>()) };
        for (auto& a : twoMembers({ Val(String), num("1") })) {
            options.push_back(Val(Option, std::vector<Val>{ a }));
            options.push_back(Val(Option, std::vector<Val>{ a, mem("x", str("s")) }));
        }
        options.push_back(Val(Option, std::vector<Val>{ mem("k0", str("s")), mem("k1", Val(String)), mem("x", Val(Boolean)) }));
        options.push_back(Val(Option, std::vector<Val>{ resolved(obj({ mem("k0", str("s")), mem("x", Val(Boolean)) })) }));
        options.push_back(Val(Option, std::vector<Val>{ Val(Select, std::vector<Val>{ Val(Option, std::vector<Val>{ mem("k0", num("1")) }), Val(Option, std::vector<Val>{ mem("x", Val(String)) }) }) }));
        for (auto& t : ofTypes())
            for (auto& a : options) {
                use(tell(obj({ Val(Select, std::vector<Val>{ a }) }), t));
                for (auto& b : options) {
                    const Val two(Select, std::vector<Val>{ a, b });
                    use(tell(obj({ two }), t));
                    use(tell(obj({ mem("y", Val(String)), two }), t));
                    use(tell(obj({ two, mem("k0", str("s")) }), t));
                    use(tell(obj({ two, mem("k1", Val(Number)).attr("typeAttributes", typed({ "required" })) }), t));
                    if (ctx.thorough)
                        for (auto& c : options)
                            use(tell(obj({ Val(Select, std::vector<Val>{ a, b, c }) }), t));
                }
            }
    });
}

// what is mixed in, before and after members of the same names
SCENARIO("mixins", 8)
{
    all(ctx, [&](const Use& use) {
        std::vector<Val> mixed;
        for (auto& t : { typed({}), typed({ "fixed" }), typed({ "fixedType" }), typed({ "nullable" }) })
            for (auto& a : twoMembers(few2())) {
                mixed.push_back(resolved(tell(obj({ a }), t)));
                if (a.kids[0].text == "k0")
                    mixed.push_back(resolved(tell(obj({ a, mem("k1", str("s")) }), t)));
            }
        for (auto& t : { typed({}), typed({ "fixed" }) })
            for (auto& n : { typed({}), typed({ "fixed" }), typed({ "fixedType" }) }) {
                mixed.push_back(resolved(tell(obj({ resolved(tell(obj({ mem("k0", str("s")), mem("x", Val(Number)) }), n)), mem("k1", str("s")) }), t)));
                mixed.push_back(resolved(tell(obj({ mem("x", Val(Number)).attr("variable", boolean(true)) }), t)));
                mixed.push_back(resolved(tell(Val(Object), t)));
                mixed.push_back(resolved(tell(Val(Object), t).attr("samples", arr({ obj({ mem("k0", str("a")) }) }))));
                mixed.push_back(resolved(Val(Extend, std::vector<Val>{ tell(obj({ mem("k0", num("1")), mem("k1", Val(String)) }), t), tell(obj({ mem("k0", str("s")) }), n) })));
            }
        for (auto& t : ofTypes())
            for (auto& m : mixed) {
                use(tell(obj({ m }), t));
                for (auto& a : twoMembers({ Val(String), num("1") })) {
                    use(tell(obj({ m, a }), t));
                    use(tell(obj({ a, m }), t));
                }
                for (auto& o : mixed)
                    if (&o == &mixed[0] || &o == &mixed[4] || &o == &mixed[7] || ctx.thorough)
                        use(tell(obj({ m, o }), t));
            }
        std::vector<Val> lists;
        for (auto& t : { typed({}), typed({ "fixed" }), typed({ "fixedType" }) })
            for (auto& a : some()) {
                lists.push_back(resolved(tell(arr({ a }), t)));
                lists.push_back(resolved(tell(arr({ a, str("x") }), t)));
            }
        lists.push_back(resolved(arr()));
        for (auto& l : lists) {
            use(arr({ l }));
            for (auto& a : some()) {
                use(arr({ l, a }));
                use(arr({ a, l }));
            }
        }
    });
}

// chains of types, and what only holds a type
SCENARIO("chains", 4)
{
    all(ctx, [&](const Use& use) {
        const auto leaves = leavesOf();
        std::vector<Val> chains;
        for (auto& a : leaves)
            for (auto& b : leaves)
                if (a.kind == b.kind && a.kind != Null)
                    chains.push_back(Val(Extend, std::vector<Val>{ a, b }));
        for (auto& a : leaves) {
            chains.push_back(Val(Holder, std::vector<Val>{ a }));
            chains.push_back(resolved(a));
        }
        for (auto& t : ofTypes())
            for (auto& n : ofTypes()) {
                for (auto& a : twoMembers(few2()))
                    for (auto& b : twoMembers({ str("t"), Val(Number) }))
                        chains.push_back(Val(Extend, std::vector<Val>{ tell(obj({ a, mem("x", Val(Boolean)) }), t), tell(obj({ b }), n) }));
                for (auto& a : some())
                    for (auto& b : some()) {
                        chains.push_back(Val(Extend, std::vector<Val>{ tell(arr({ a }), t), tell(arr({ b }), n) }));
                    }
                const Val low = Val(Enum).attr("enumerations", arr({ str("s").attr("typeAttributes", typed({ "fixed" })) }));
                const Val high = Val(Enum).attr("enumerations", arr({ str("t").attr("typeAttributes", typed({ "fixed" })), Val(Number) }));
                chains.push_back(Val(Extend, std::vector<Val>{ tell(low, t), tell(high, n) }));
                chains.push_back(Val(Extend, std::vector<Val>{ tell(high, t), tell(low, n) }));
                chains.push_back(Val(Extend, std::vector<Val>{ tell(low, t), tell(high, n), tell(Val(Enum, std::vector<Val>{ str("t") }), t) }));
            }
        for (auto& c : chains) {
            use(c);
            if (c.kids.size() != 2 || c.kids[0].kind != Object) {
                use(arr({ c }).attr("typeAttributes", typed({ "fixedType" })));
                if (c.kind == Extend || merged(c).kind != Object)
                    use(obj({ mem("k0", c) }).attr("typeAttributes", typed({ "fixed" })));
            }
        }
    });
}

// containers in containers
SCENARIO("nested", 8)
{
    all(ctx, [&](const Use& use) {
        std::vector<Val> inner;
        const std::vector<Val> leaves{ Val(String), str("s"), num("1").attr("typeAttributes", typed({ "fixed" })), Val(Number).attr("samples", arr({ num("2") })) };
        containers(leaves, false, [&](const Val& v) { inner.push_back(v); });
        for (auto& a : leaves)
            for (auto& m : { typed({}), typed({ "required" }), typed({ "optional" }), typed({ "nullable" }), typed({ "fixed" }) })
                for (auto& t : ofTypes())
                    inner.push_back(tell(obj({ tell(mem("k0", a), m) }), t));
        containers(inner, false, use);
        for (auto& a : inner)
            for (auto& m : ofMembers())
                for (auto& t : ofTypes())
                    use(tell(obj({ tell(mem("k0", a), m) }), t));
        for (auto& a : inner)
            for (auto& t : ofTypes()) {
                use(tell(arr({ a, str("s") }), t));
                use(tell(obj({ mem("k0", a), mem("k1", Val(String)) }), t));
                use(tell(obj({ mem("k0", str("s")), mem("k1", a) }), t));
            }
        std::uint64_t n = 0;
        for (auto& a : inner)
            if (ctx.thorough || n++ % 7 == 0)
                for (auto& t : { typed({}), typed({ "fixed" }), typed({ "fixedType" }) })
                    for (auto& u : { typed({}), typed({ "fixed" }), typed({ "fixedType" }) }) {
                        use(tell(obj({ mem("k0", tell(arr({ a }), u)) }), t));
                        use(tell(arr({ tell(obj({ mem("k0", a) }), u) }), t));
                        use(tell(obj({ mem("k0", tell(obj({ mem("k0", a) }), u)) }), t));
                        use(tell(arr({ tell(arr({ a }), u) }), t));
                    }
    });
}

MC_MAIN
