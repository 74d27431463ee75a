// C17: what is said of a type (type attributes, default, samples, enumerations) accumulates and is found again.
#include "elems.hpp"
#include "refract/ElementUtils.h"

using namespace em;

namespace
{
    const Val* at(const Info& i, const std::string& k)
    {
        for (auto& e : i)
            if (e.first == k)
                return &e.second;
        return nullptr;
    }
    Val* at(Info& i, const std::string& k)
    {
        for (auto& e : i)
            if (e.first == k)
                return &e.second;
        return nullptr;
    }
    bool typeAttr(const Val& v, const std::string& a)
    {
        auto t = at(v.attrs, "typeAttributes");
        if (t && t->kind == Array)
            for (auto& x : t->kids)
                if (x.kind == String && x.has && x.text == a)
                    return true;
        return false;
    }

    struct Op {
        std::string what;
        std::string name;
        Val value;
    };
    std::vector<Op> ops(bool thorough)
    {
        std::vector<Op> o{ { "attribute", "fixed", Val() }, { "attribute", "nullable", Val() }, { "fixed", "", Val() },
            { "default", "", str("d") }, { "default", "", num("1").attr("x", str("y")) }, { "sample", "", str("s") },
            { "sample", "", obj({ mem("k", str("v")) }) }, { "enumeration", "", str("e") }, { "enumeration", "", Val(Number) } };
        if (thorough) {
            o.push_back({ "attribute", "", Val() });
            o.push_back({ "attribute", "Fixed", Val() });
            o.push_back({ "sample", "", Val(String) });
        }
        return o;
    }

    void apply(Val& v, const Op& op)
    {
        auto list = [&](const char* key, const Val& x, bool unique) {
            if (auto t = at(v.attrs, key)) {
                if (t->kind != Array)
                    return;
                if (unique)
                    for (auto& k : t->kids)
                        if (k.kind == String && k.has && k.text == x.text)
                            return;
                t->kids.push_back(x);
            } else
                v.attrs.emplace_back(key, arr({ x }));
        };
        if (op.what == "attribute")
            list("typeAttributes", str(op.name), true);
        else if (op.what == "fixed")
            list("typeAttributes", str("fixed"), true);
        else if (op.what == "sample")
            list("samples", op.value, false);
        else if (op.what == "enumeration")
            list("enumerations", op.value, false);
        else if (auto d = at(v.attrs, "default"))
            *d = op.value;
        else
            v.attrs.emplace_back("default", op.value);
    }

    void apply(IElement& e, const Op& op)
    {
        if (op.what == "attribute")
            setTypeAttribute(e, op.name);
        else if (op.what == "fixed")
            setFixedTypeAttribute(e);
        else if (op.what == "sample")
            addSample(e, build(op.value));
        else if (op.what == "enumeration")
            addEnumeration(e, build(op.value));
        else
            setDefault(e, build(op.value));
    }

    const Val* sample(const Val& v)
    {
        auto s = at(v.attrs, "samples");
        return s && s->kind == Array && s->has && !s->kids.empty() ? &s->kids[0] : nullptr;
    }
    const Val* value(const Val& v)
    {
        return v.has ? &v : sample(v) ? sample(v) : at(v.attrs, "default");
    }
    bool variable(const Val& v)
    {
        auto x = at(v.attrs, "variable");
        return x && x->kind == Boolean && x->has && x->text == "true";
    }
    // does a fixed parent make it fixed?
    bool inherits(const Val& v)
    {
        switch (v.kind) {
            case Array:
            case String:
            case Number:
            case Boolean:
                return value(v) != nullptr;
            case Member:
                return !variable(v) && (v.has ? inherits(v.kids[1]) : at(v.attrs, "default") != nullptr);
            case Enum:
                return v.has ? inherits(v.kids[0]) : at(v.attrs, "default") != nullptr;
            case Extend:
                return inherits(v.kids.back());
            default:
                return true;
        }
    }
    std::string key(const Val& v)
    {
        if (v.kind == Extend)
            return key(v.kids.back());
        if (v.kind != String)
            return "";
        if (v.has)
            return v.text;
        if (auto s = sample(v))
            return key(*s);
        if (auto d = at(v.attrs, "default"))
            return key(*d);
        return "";
    }
    bool keyed(const Val& v)
    {
        if (v.kind == Extend)
            return v.has && !v.kids.empty() && keyed(v.kids.back());
        if (v.kind != String)
            return false;
        if (v.has)
            return true;
        if (auto s = sample(v))
            return keyed(*s);
        if (auto d = at(v.attrs, "default"))
            return keyed(*d);
        return true;
    }

    std::string show(const IElement* e)
    {
        return e ? dump(*e) : "<none>";
    }
    std::string show(const Val* v)
    {
        return v ? dump(*v) : "<none>";
    }

    void ask(mc::Ctx& ctx, const IElement& e, const Val& v)
    {
        for (auto name : { "fixed", "fixedType", "required", "optional", "nullable", "Fixed", "", "default" })
            ctx.expect(hasTypeAttr(e, name) == typeAttr(v, name), std::string("type attribute ") + name);
        ctx.expect(hasFixedTypeAttr(e) == typeAttr(v, "fixed"), "fixed");
        ctx.expect(hasFixedTypeTypeAttr(e) == typeAttr(v, "fixedType"), "fixedType");
        ctx.expect(hasRequiredTypeAttr(e) == typeAttr(v, "required"), "required");
        ctx.expect(hasOptionalTypeAttr(e) == typeAttr(v, "optional"), "optional");
        ctx.expect(hasNullableTypeAttr(e) == typeAttr(v, "nullable"), "nullable");
        ctx.expect(isVariable(e) == variable(v), "variable");
        ctx.expect(hasDefault(e) == (at(v.attrs, "default") != nullptr), "whether there is a default");
        ctx.expect(show(findDefault(e)) == show(at(v.attrs, "default")), "default is " + show(findDefault(e)));
        ctx.expect(show(findFirstSample(e)) == show(sample(v)), "first sample is " + show(findFirstSample(e)));
        ctx.expect(show(findValue(e)) == show(value(v)), "value is " + show(findValue(e)) + ", expected " + show(value(v)));
        ctx.expect(!v.has || findValue(e) == &e, "value is not the element itself");
        ctx.expect(definesValue(e) == (value(v) != nullptr), "whether there is a value");
        if (v.kind != Extend || (v.has && !v.kids.empty()))
            ctx.expect(inheritsFixed(e) == inherits(v), "whether it is fixed in a fixed parent");
        if (keyed(v))
            ctx.expect(renderKey(e) == key(v), "as a key gives " + mc::quote(renderKey(e)) + ", expected " + mc::quote(key(v)));
        ctx.expect(dump(e) == dump(v), "asking changed it to " + dump(e));
        ctx.step(20);
    }

    // no kind of element is one it is not
    template <typename E>
    void kind(mc::Ctx& ctx, const IElement& e, const Val& v, Kind k)
    {
        ctx.expect((get<const E>(&e) != nullptr) == (v.kind == k), std::string("taken for ") + kindName(k));
        ctx.expect(get<const E>(static_cast<const IElement*>(nullptr)) == nullptr, "nothing taken for something");
    }
}

SCENARIO("histories", 8)
{
    // every history of up to 4 (thorough: 5) statements about elements of every kind
    const auto o = ops(ctx.thorough);
    std::vector<Val> starts = { Val(String), str("x"), Val(Number), Val(Boolean), Val(Array), arr({ str("a") }), Val(Object), Val(Enum), mem("k", str("v")), ref("R"),
        Val(String).attr("zeta", str("z")), Val(String).attr("typeAttributes", typed({ "required" })).attr("default", str("0")),
        Val(Enum).attr("enumerations", arr({ str("q") })).attr("samples", arr({ str("q"), str("r") })) };
    const unsigned depth = ctx.thorough ? 5 : 4;
    std::uint64_t n = 0;
    for (auto& start : starts) {
        std::vector<unsigned> at;
        for (unsigned len = 0; len <= depth; ++len) {
            at.assign(len, 0);
            for (;;) {
                ++n;
                if (ctx.mine() && !ctx.full()) {
                    auto describe = [&] {
                        std::string s = dump(start);
                        for (auto a : at)
                            s += "; " + o[a].what + " " + o[a].name + (o[a].value.kind == Null ? "" : dump(o[a].value));
                        return s;
                    };
                    if (ctx.beginN(n, describe)) {
                        Val v = start;
                        auto e = build(start);
                        for (auto a : at) {
                            apply(v, o[a]);
                            apply(*e, o[a]);
                            ctx.step();
                        }
                        ctx.expect(dump(*e) == dump(v), "left " + dump(*e) + ", expected " + dump(v));
                        ask(ctx, *e, v);
                        ctx.state(dump(v));
                        ctx.trace();
                    }
                }
                unsigned i = 0;
                while (i < len && ++at[i] == o.size())
                    at[i++] = 0;
                if (i == len)
                    break;
            }
        }
    }
}

namespace
{
    // type attributes of which the last one is what is asked for
    Val many(const char* last, unsigned n)
    {
        Val v = arr({});
        for (unsigned i = 0; i < n; ++i)
            v.kids.push_back(str("t" + std::to_string(i)));
        v.kids.push_back(str(last));
        return v;
    }
}

SCENARIO("questions", 8)
{
    // elements of every kind with every combination of what can be asked for, well formed or not
    std::vector<Val> bases = leaves();
    for (auto& v : { arr({ str("a") }), arr({ Val(String) }), obj({ mem("k", str("v")) }), mem("k", str("v")), mem("k", Val(String)), mem(Val(String), Val(Array)),
             Val(Member), Val(Enum, std::vector<Val>{ str("e") }), Val(Enum, std::vector<Val>{ Val(Number) }), ref("R"),
             Val(Extend, std::vector<Val>{ str("a"), str("b") }), Val(Extend, std::vector<Val>{ Val(String) }), Val(Extend, std::vector<Val>{ Val(Array) }),
             Val(Option), Val(Select), Val(Holder, std::vector<Val>{ str("h") }) })
        bases.push_back(v);
    const std::vector<Info> attributes{ {}, { { "typeAttributes", typed({ "fixed" }) } }, { { "typeAttributes", typed({ "required", "nullable" }) } },
        { { "typeAttributes", arr({ num("1"), Val(String), str("fixedType"), str("optional") }) } }, { { "typeAttributes", arr() } },
        { { "typeAttributes", str("fixed") } }, { { "typeAttributes", obj() } }, { { "typeAttributes", many("fixed", 9) } }, { { "typeAttributes", many("nullable", 70) } } };
    const std::vector<Info> samples{ {}, { { "samples", arr({ str("s"), str("t") }) } }, { { "samples", arr({ Val(String).attr("default", str("u")) }) } },
        { { "samples", arr() } }, { { "samples", Val(Array) } }, { { "samples", str("s") } }, { { "samples", arr({ num("1") }) } } };
    const std::vector<Info> defaults{ {}, { { "default", str("d") } }, { { "default", Val(String).attr("samples", arr({ str("w") })) } }, { { "default", num("2") } } };
    const std::vector<Info> variables{ {}, { { "variable", boolean(true) } }, { { "variable", boolean(false) } }, { { "variable", Val(Boolean) } },
        { { "variable", str("true") } } };
    std::uint64_t n = 0;
    for (auto& b : bases)
        for (auto& a : attributes)
            for (auto& s : samples)
                for (auto& d : defaults)
                    for (auto& x : variables) {
                        ++n;
                        if (!ctx.mine() || ctx.full())
                            continue;
                        Val v = b;
                        for (auto i : { &a, &s, &d, &x })
                            v.attrs.insert(v.attrs.end(), i->begin(), i->end());
                        auto describe = [&] { return dump(v); };
                        if (!ctx.beginN(n, describe))
                            continue;
                        auto e = build(v);
                        ask(ctx, *e, v);
                        kind<NullElement>(ctx, *e, v, Null);
                        kind<StringElement>(ctx, *e, v, String);
                        kind<NumberElement>(ctx, *e, v, Number);
                        kind<BooleanElement>(ctx, *e, v, Boolean);
                        kind<ArrayElement>(ctx, *e, v, Array);
                        kind<ObjectElement>(ctx, *e, v, Object);
                        kind<MemberElement>(ctx, *e, v, Member);
                        kind<EnumElement>(ctx, *e, v, Enum);
                        kind<RefElement>(ctx, *e, v, Ref);
                        kind<ExtendElement>(ctx, *e, v, Extend);
                        kind<OptionElement>(ctx, *e, v, Option);
                        kind<SelectElement>(ctx, *e, v, Select);
                        ctx.state(dump(v));
                        ctx.outcome(show(value(v)));
                        ctx.trace();
                    }
}

MC_MAIN
