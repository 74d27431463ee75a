// C15: what an element says: its value, samples, default, type attributes, key, description.
#include "elems.hpp"
#include "refract/ComparableVisitor.h"
#include "refract/VisitorUtils.h"
#include "SourceAnnotation.h"

using namespace em;

namespace
{
    const Val* at(const Info& i, const std::string& k)
    {
        for (auto& e : i)
            if (e.first == k)
                return &e.second;
        return nullptr;
    }

    bool typeAttr(const Val& v, const std::string& a)
    {
        auto t = at(v.attrs, "typeAttributes");
        if (t && t->kind == Array)
            for (auto& x : t->kids)
                if (x.kind == String && x.text == a)
                    return true;
        return false;
    }

    const Val* sample(const Val& v)
    {
        auto t = at(v.attrs, "samples");
        if (t && t->kind == Array && !t->kids.empty() && t->kids[0].kind == v.kind)
            return &t->kids[0];
        return nullptr;
    }
    const Val* byDefault(const Val& v)
    {
        auto t = at(v.attrs, "default");
        return t && t->kind == v.kind ? t : nullptr;
    }

    const Val* value(const Val& v)
    {
        if (v.has)
            return &v;
        if (auto s = sample(v))
            return s;
        if (auto d = byDefault(v))
            return d;
        return typeAttr(v, "nullable") ? nullptr : &v;
    }

    const Val* enumValue(const Val& v)
    {
        if (auto s = sample(v))
            return enumValue(*s);
        if (auto d = byDefault(v))
            return enumValue(*d);
        if (v.has && !v.kids.empty())
            return &v.kids[0];
        auto t = at(v.attrs, "enumerations");
        if (t && t->kind == Array)
            for (auto& x : t->kids) {
                if (x.kind == Enum)
                    if (auto r = enumValue(x))
                        return r;
                if (x.has)
                    return &x;
            }
        return nullptr;
    }

    std::string show(const Val* v)
    {
        return v ? dump(*v) : "<none>";
    }

    template <typename E>
    void values(mc::Ctx& ctx, const Val& v, const IElement& i)
    {
        const E& e = static_cast<const E&>(i);
        ctx.expect(dump(GetSample(e)) == show(sample(v)), "has the sample " + dump(GetSample(e)) + ", expected " + show(sample(v)));
        ctx.expect(dump(GetDefault(e)) == show(byDefault(v)), "has the default " + dump(GetDefault(e)) + ", expected " + show(byDefault(v)));
        const Val* want = v.kind == Enum ? enumValue(v) : value(v);
        const IElement* got = GetValue<E>()(e);
        ctx.expect(dump(got) == show(want), "has the value " + dump(got) + ", expected " + show(want));
        if (want == &v)
            ctx.expect(got == &i, "the value is a copy");
        for (auto a : { "required", "nullable", "fixed", "fixedType", "optional", "", "nullabl", "nullable " })
            ctx.expect(HasTypeAttribute(e, a) == typeAttr(v, a), std::string("the type attribute ") + a + (typeAttr(v, a) ? " is missed" : " is found"));
        auto var = at(v.attrs, "variable");
        ctx.expect(IsVariableProperty(e) == (var && var->kind == Boolean && var->text == "true"), "is variable or not");
        ctx.step(6);
        ctx.outcome(show(want));
    }

    void one(mc::Ctx& ctx, const Val& v, std::uint64_t n)
    {
        const std::string text = dump(v);
        auto describe = [&] { return text; };
        if (!ctx.beginN(n, describe))
            return;
        auto e = build(v);
        switch (v.kind) {
            case Null:
                values<NullElement>(ctx, v, *e);
                break;
            case String:
                values<StringElement>(ctx, v, *e);
                break;
            case Number:
                values<NumberElement>(ctx, v, *e);
                break;
            case Boolean:
                values<BooleanElement>(ctx, v, *e);
                break;
            case Array:
                values<ArrayElement>(ctx, v, *e);
                break;
            case Object:
                values<ObjectElement>(ctx, v, *e);
                break;
            case Enum:
                values<EnumElement>(ctx, v, *e);
                break;
            case Ref:
                values<RefElement>(ctx, v, *e);
                break;
            default:
                break;
        }
        auto d = at(v.meta, "description");
        ctx.expect(dump(GetDescription(*e)) == (d && d->kind == String ? dump(*d) : "<none>"), "has the description " + dump(GetDescription(*e)));
        const bool literal = v.kind != Null
            && ((v.has && (v.kind == String || v.kind == Number || v.kind == Boolean)) || typeAttr(v, "fixed"));
        ctx.expect(IsLiteral(*e) == literal, literal ? "is no literal" : "is a literal");
        for (auto k : { "default", "samples", "description", "variable", "x" })
            for (int m = 0; m < 2; ++m) {
                const Val* x = at(m ? v.meta : v.attrs, k);
                auto& i = m ? e->meta() : e->attributes();
                const std::string all = x ? dump(*x) : "<none>";
                ctx.expect(dump(FindCollectionMemberValue<const StringElement>(i, k)) == (x && x->kind == String ? all : "<none>"), "the string under a key");
                ctx.expect(dump(FindCollectionMemberValue<const ArrayElement>(i, k)) == (x && x->kind == Array ? all : "<none>"), "the array under a key");
                ctx.step(2);
            }
        ctx.expect(dump(*e) == text, "changed to " + dump(*e));
        ctx.step(4);
        ctx.state(text);
        ctx.trace();
        ctx.sample(text, 1);
    }

    // every combination of what can be said about a value
    std::vector<Val> space(bool thorough)
    {
        std::vector<Val> o;
        for (auto& base : { Val(Null), null(), Val(String), str(""), str("a"), Val(Number), num("1"), Val(Boolean), boolean(false), Val(Array),
                 arr(), arr({ str("a") }), Val(Object), obj(), obj({ mem("a", str("b")) }), Val(Enum), Val(Enum, std::vector<Val>()),
                 Val(Enum, std::vector<Val>{ str("e") }), ref("R"), mem("a", str("b")), Val(Option), Val(Select), Val(Holder, std::vector<Val>{ str("h") }),
                 Val(Extend) }) {
            auto like = [&](const std::string& s) {
                switch (base.kind) {
                    case String:
                        return str(s);
                    case Number:
                        return num(s);
                    case Boolean:
                        return boolean(s == "1");
                    case Array:
                        return arr({ str(s) });
                    case Object:
                        return obj({ mem(s, null()) });
                    case Enum:
                        return Val(Enum, std::vector<Val>{ str(s) });
                    case Ref:
                        return ref(s);
                    default:
                        return base;
                }
            };
            const Val empty(base.kind);
            const std::vector<const Val*> none{ nullptr };
            std::vector<Val> samples{ arr(), Val(Array), arr({ like("1") }), arr({ like("1"), like("2") }), arr({ empty, like("2") }), like("1"),
                arr({ mem("x", str("y")), like("2") }), arr({ like("1").attr("samples", arr({ like("3") })) }), arr({ empty.attr("samples", arr({ like("4") })) }) };
            std::vector<Val> defaults{ like("5"), empty, arr({ like("5") }), mem("x", str("y")), empty.attr("default", like("6")) };
            std::vector<Val> types{ Val(Array), arr(), typed({ "nullable" }), typed({ "required", "nullable" }), typed({ "fixed" }),
                arr({ num("1"), str("fixed") }), str("nullable"), typed({ "fixedType", "optional" }), arr({ Val(String), str("nullable").attr("x", null()) }) };
            std::vector<Val> enums{ arr(), Val(Array), arr({ str("m") }), arr({ Val(String), str("n") }), arr({ Val(Enum), str("n") }),
                arr({ Val(Enum, std::vector<Val>()) }), arr({ Val(Enum).attr("enumerations", arr({ str("p") })), str("n") }), str("q"),
                arr({ Val(Enum, std::vector<Val>{ str("r") }).attr("default", Val(Enum)) , num("1") }) };
            const std::size_t ne = base.kind == Enum ? enums.size() : 1;
            for (std::size_t s = 0; s <= samples.size(); ++s)
                for (std::size_t d = 0; d <= defaults.size(); ++d)
                    for (std::size_t t = 0; t <= types.size(); ++t)
                        for (std::size_t e = 0; e <= ne; ++e) {
                            if (!thorough && s && d && t && (s + d + t) % 3)
                                continue;
                            Val v = base;
                            if (s)
                                v = v.attr("samples", samples[s - 1]);
                            if (e)
                                v = v.attr("enumerations", enums[e - 1]);
                            if (d)
                                v = v.attr("default", defaults[d - 1]);
                            if (t)
                                v = v.attr("typeAttributes", types[t - 1]);
                            o.push_back(v);
                        }
            for (auto& var : { boolean(true), boolean(false), Val(Boolean), str("true"), num("1") }) {
                o.push_back(base.attr("variable", var));
                o.push_back(base.attr("variables", var).attr("variable", boolean(true)));
                o.push_back(base.metaOf("variable", var));
            }
            for (auto& d : { str("d"), Val(String), num("1"), arr({ str("d") }), Val(Enum, std::vector<Val>{ str("d") }) }) {
                o.push_back(base.metaOf("description", d));
                o.push_back(base.attr("description", d).metaOf("title", str("t")));
                o.push_back(base.metaOf("title", str("t")).metaOf("description", d));
                o.push_back(base.metaOf("default", d).metaOf("samples", d).metaOf("typeAttributes", typed({ "nullable" })));
            }
        }
        return o;
    }
}

SCENARIO("values", 8)
{
    auto all = space(ctx.thorough);
    for (auto& v : large(513, 65))
        all.push_back(v);
    for (auto i : beyond(513)) { // the first of so many samples, and behind as many attributes
        std::vector<Val> s;
        Val late(String);
        for (unsigned j = 0; j < i; ++j) {
            s.push_back(str("s" + std::to_string(j)));
            late.attrs.push_back({ "a" + std::to_string(j), num("1") });
        }
        all.push_back(Val(String).attr("samples", arr(s)));
        all.push_back(late.attr("samples", arr(s)));
        all.push_back(late.attr("default", str("d")));
        all.push_back(Val(Enum).attr("enumerations", arr(s)));
    }
    std::uint64_t n = 0;
    for (auto& v : all) {
        ++n;
        if (ctx.mine() && !ctx.full())
            one(ctx, v, n);
    }
}

SCENARIO("members", 8)
{
    // objects of up to three entries (thorough: four), every name looked up
    auto opt = [](std::vector<Val> v) { return Val(Option, std::move(v)); };
    const std::vector<Val> entries{ mem("a", str("1")), mem("b", Val(String)), mem("a", num("2")), mem("", str("e")), mem(num("1"), str("a")),
        mem(str("b").named("X").metaOf("id", str("a")), str("x")), Val(Member), Val(Member, std::vector<Val>{ str("a") }), mem(Val(String), str("a")),
        mem(Val(Extend, std::vector<Val>{ str("a") }), str("x")), ref("a"), Val(Select, std::vector<Val>{ opt({ mem("a", str("1")) }) }),
        mem("c", str("a")), obj({ mem("a", str("1")) }), mem(boolean(true), null()), mem(null(), null()) };
    std::vector<Val> all{ Val(Object) };
    for (auto& v : containers(entries, ctx.thorough ? 4 : 3))
        if (v.kind == Object)
            all.push_back(v);
    for (auto& k : vocabulary())
        all.push_back(obj({ mem("zz", str(k)), mem(k, str("zz")), mem(k + "x", str("1")) }));
    std::uint64_t n = 0;
    for (auto& v : all) {
        ++n;
        if (!ctx.mine() || ctx.full())
            continue;
        auto describe = [&] { return dump(v); };
        if (!ctx.beginN(n, describe))
            continue;
        auto e = build(v);
        auto& o = static_cast<const ObjectElement&>(*e);
        std::vector<std::string> names{ "a", "b", "c", "", "1", "x", "true", "A" };
        for (auto& k : v.kids)
            if (k.kind == Member && !k.kids.empty() && k.kids[0].kind == String)
                names.push_back(k.kids[0].text);
        for (auto& name : names) {
            long want = -1;
            for (std::size_t i = 0; i < v.kids.size() && want < 0; ++i) {
                auto& k = v.kids[i];
                if (k.kind == Member && k.has && !k.kids.empty() && k.kids[0].kind == String && k.kids[0].has && k.kids[0].text == name)
                    want = static_cast<long>(i);
            }
            // a key without a text is an empty one
            if (name.empty())
                for (std::size_t i = 0; i < v.kids.size(); ++i) {
                    auto& k = v.kids[i];
                    if (k.kind == Member && k.has && !k.kids.empty() && k.kids[0].kind == String && k.kids[0].text.empty()) {
                        want = static_cast<long>(i);
                        break;
                    }
                }
            const MemberElement* got = v.has ? FindMemberByKey(o, name) : FindMemberByKey(o, name);
            const IElement* exp = want < 0 ? nullptr : o.get().begin()[want].get();
            ctx.expect(got == exp, "member " + mc::quote(name) + " is " + dump(got) + ", expected " + dump(exp));
            ctx.step();
            ctx.outcome(name + std::to_string(want));
        }
        ctx.state(dump(v));
        ctx.trace();
    }
}

SCENARIO("keys", 4)
{
    // the text of every kind of key
    std::vector<Val> keys = leaves();
    for (auto& k : vocabulary())
        keys.push_back(str(k));
    const std::vector<Val> parts{ Val(String), str(""), str("a"), str("b").named("X"), Val(String).attr("default", str("d")), Val(String).attr("samples", arr({ str("s") })),
        str("").attr("default", str("d")), num("1"), Val(String).attr("typeAttributes", typed({ "nullable" })), Val(String).attr("default", Val(String)) };
    for (auto& p : parts) {
        keys.push_back(Val(Extend, std::vector<Val>{ p }));
        keys.push_back(p);
        for (auto& q : parts)
            if (p.kind == q.kind) {
                keys.push_back(Val(Extend, std::vector<Val>{ p, q }));
                for (auto& r : parts)
                    if (q.kind == r.kind)
                        keys.push_back(Val(Extend, std::vector<Val>{ p, q, r }));
            }
    }
    std::uint64_t n = 0;
    for (auto& k : keys) {
        ++n;
        if (!ctx.mine() || ctx.full())
            continue;
        auto describe = [&] { return dump(k); };
        if (!ctx.beginN(n, describe))
            continue;
        auto m = build(mem(k, str("v")));
        std::string want;
        if (k.kind == String && k.has)
            want = k.text;
        else if (k.kind == Extend && k.has && !k.kids.empty() && k.kids[0].kind == String) {
            // merged: the last value, default and samples that are given
            Val t = k.kids[0];
            for (std::size_t i = 1; i < k.kids.size(); ++i) {
                for (auto& a : k.kids[i].attrs) {
                    bool found = false;
                    for (auto& b : t.attrs)
                        if (b.first == a.first) {
                            b.second = a.second;
                            found = true;
                        }
                    if (!found)
                        t.attrs.push_back(a);
                }
                if (k.kids[i].has) {
                    t.has = true;
                    t.text = k.kids[i].text;
                }
            }
            auto x = value(t);
            want = x && x->has ? x->text : "";
        }
        const std::string got = GetKeyAsString(static_cast<const MemberElement&>(*m));
        ctx.expect(got == want, "is the key " + mc::quote(got) + ", expected " + mc::quote(want));
        ctx.step();
        ctx.state(dump(k));
        ctx.outcome(want);
        ctx.trace();
    }
    for (auto& v : { Val(Member), Val(Member, std::vector<Val>()) })
        if (ctx.begin(dump(v))) {
            auto m = build(v);
            ctx.expect(GetKeyAsString(static_cast<const MemberElement&>(*m)).empty(), "has a key");
            ctx.step();
        }
}

namespace
{
    template <typename T>
    std::string fetch(const IElement& e)
    {
        std::vector<std::string> members;
        try {
            HandleRefWhenFetchingMembers<T>(e, members,
                [](const T& t, std::vector<std::string>& to) { to.push_back(dump(t)); });
        } catch (const snowcrash::Error& err) {
            if (err.code != snowcrash::MSONError || err.message.empty())
                return "wrong error";
            return "error";
        }
        std::string o;
        for (auto& m : members)
            o += m + ";";
        return o;
    }
    std::string fetched(Kind k, const Val& v)
    {
        auto r = at(v.attrs, "resolved");
        if (!r)
            return "";
        if (r->kind != Extend)
            return r->kind == k ? dump(*r) + ";" : "error";
        std::string o;
        for (auto& x : r->kids) {
            if (x.kind != k)
                return "error";
            o += dump(x) + ";";
        }
        return o;
    }
}

SCENARIO("mixins", 4)
{
    // what a mixin of an object or an array resolves to
    std::vector<Val> resolved = leaves();
    for (auto& v : containers({ obj({ mem("a", str("1")) }), obj(), arr({ str("x") }), Val(Array), str("s"), Val(Extend, std::vector<Val>{ obj() }) }, ctx.thorough ? 4 : 3))
        if (v.kind == Extend)
            resolved.push_back(v);
    std::uint64_t n = 0;
    for (std::size_t i = 0; i <= resolved.size(); ++i) {
        ++n;
        if (!ctx.mine() || ctx.full())
            continue;
        Val v = ref("T").attr("x", str("y"));
        if (i)
            v = v.attr("resolved", resolved[i - 1]);
        auto describe = [&] { return dump(v); };
        if (!ctx.beginN(n, describe))
            continue;
        auto e = build(v);
        ctx.expect(fetch<ObjectElement>(*e) == fetched(Object, v), "gives an object " + fetch<ObjectElement>(*e) + ", expected " + fetched(Object, v));
        ctx.expect(fetch<ArrayElement>(*e) == fetched(Array, v), "gives an array " + fetch<ArrayElement>(*e) + ", expected " + fetched(Array, v));
        ctx.step(2);
        ctx.state(dump(v));
        ctx.outcome(fetched(Object, v) + fetched(Array, v));
        ctx.trace();
    }
}

MC_MAIN
