// C12: expansion of named types.
#include "elems.hpp"
#include "refract/Registry.h"
#include "refract/ExpandVisitor.h"
#include "refract/Exception.h"
#include "SourceAnnotation.h"

using namespace em;

namespace
{
    using Types = std::map<std::string, Val>; // registered, by id

    const std::set<std::string> RESERVED{ "array", "boolean", "enum", "extend", "generic", "member", "null", "number",
        "object", "option", "ref", "select", "string" };

    bool namedType(const Val& v)
    {
        return !RESERVED.count(v.name);
    }

    struct Circular {
    };

    const Val* at(const Info& i, const std::string& k)
    {
        for (auto& e : i)
            if (e.first == k)
                return &e.second;
        return nullptr;
    }
    void put(Info& i, const std::string& k, const Val& v)
    {
        for (auto& e : i)
            if (e.first == k) {
                e.second = v;
                return;
            }
        i.emplace_back(k, v);
    }
    void drop(Info& i, const std::string& k)
    {
        for (auto it = i.begin(); it != i.end(); ++it)
            if (it->first == k) {
                i.erase(it);
                return;
            }
    }

    // What expansion is: an element of a named type becomes an "extend" of its ancestors, the furthest first, each
    // marked with the name of the type it comes from, followed by what the element says itself.
    struct Expander {
        const Types& types;
        std::vector<std::string> open;

        explicit Expander(const Types& t) : types(t) {}

        bool isOpen(const std::string& n) const
        {
            return std::find(open.begin(), open.end(), n) != open.end();
        }

        const Val* find(const std::string& n) const
        {
            auto it = types.find(n);
            return it == types.end() ? nullptr : &it->second;
        }

        const Val* root(const std::string& n) const
        {
            const Val* v = find(n);
            std::set<const Val*> seen;
            while (v && namedType(*v)) {
                seen.insert(v);
                const Val* next = find(v->name);
                if (!next || seen.count(next))
                    return v;
                v = next;
            }
            return v;
        }

        // is there anything to expand inside
        bool needed(const Val& v) const
        {
            if (v.kind == Ref || namedType(v))
                return true;
            if (v.kind == Enum)
                if (auto e = at(v.attrs, "enumerations"))
                    if (needed(*e))
                        return true;
            for (auto& k : v.kids)
                if (needed(k))
                    return true;
            return false;
        }

        Val entries(const Val& v)
        {
            Val o(v.kind);
            o.attrs = v.attrs;
            o.meta = v.meta;
            o.has = v.has;
            o.text = v.text;
            const bool list = v.kind == Array || v.kind == Object || v.kind == Extend || v.kind == Option || v.kind == Select;
            for (auto& k : v.kids)
                o.kids.push_back(list || v.kind == Enum ? expand(k) : k);
            return o;
        }

        Val named(const Val& v)
        {
            if (isOpen(v.name)) {
                const Val* r = root(v.name);
                Val o(r->kind);
                o.attrs = r->attrs;
                o.meta = r->meta;
                drop(o.meta, "id");
                put(o.meta, "ref", str(v.name));
                return o;
            }
            // the chain of types
            std::vector<Val> chain;
            std::set<std::string> seen;
            bool cycle = false;
            for (std::string n = v.name; !RESERVED.count(n);) {
                const Val* t = find(n);
                if (!t)
                    break;
                if (!seen.insert(n).second) {
                    cycle = true;
                    break;
                }
                Val e = *t;
                e.name = defaultName(e.kind);
                drop(e.meta, "id");
                put(e.meta, "ref", str(n));
                chain.insert(chain.begin(), e);
                n = t->name;
            }
            if (cycle)
                chain.clear();
            Val o(Extend);
            o.has = true;
            open.push_back(v.name);
            for (auto& e : chain)
                o.kids.push_back(expand(e));
            if (auto id = at(v.meta, "id"))
                if (id->has)
                    o.meta.emplace_back("id", *id);
            open.pop_back();
            Val own = entries(v);
            drop(own.meta, "id");
            o.kids.push_back(own);
            return o;
        }

        Val expand(const Val& v)
        {
            switch (v.kind) {
                case Null:
                case Holder:
                    return v;
                case String:
                case Number:
                case Boolean:
                    return namedType(v) ? named(v) : v;
                case Enum: {
                    if (namedType(v))
                        return named(v);
                    Val o = entries(v);
                    for (auto& a : o.attrs)
                        if (a.first == "enumerations") {
                            Val e = arr();
                            for (auto& k : a.second.kids)
                                e.kids.push_back(expand(k));
                            a.second = e;
                        }
                    return o;
                }
                case Ref: {
                    Val o = v;
                    if (v.text.empty())
                        return o;
                    if (isOpen(v.text))
                        throw Circular();
                    open.push_back(v.text);
                    if (auto t = find(v.text)) {
                        Val e = expand(*t);
                        if (auto id = at(e.meta, "id"))
                            if (id->has) {
                                const Val copy = *id;
                                put(e.meta, "ref", copy);
                                drop(e.meta, "id");
                            }
                        put(o.attrs, "resolved", e);
                    }
                    open.pop_back();
                    return o;
                }
                case Member: {
                    if (!needed(v))
                        return v;
                    Val o = v;
                    for (auto& k : o.kids)
                        k = expand(k);
                    return o;
                }
                default:
                    if (!needed(v))
                        return v;
                    return namedType(v) ? named(v) : entries(v);
            }
        }
    };

    // what is left of a named type after expansion must be gone: independent of the reference above
    bool unexpanded(const Val& v)
    {
        if (v.kind != Null && v.kind != Holder && v.kind != Member && v.kind != Ref && namedType(v))
            return true;
        if (v.kind == Holder) // what it holds is left alone
            return false;
        for (auto& k : v.kids)
            if (unexpanded(k))
                return true;
        if (v.kind == Ref)
            if (auto r = at(v.attrs, "resolved"))
                return unexpanded(*r);
        return false;
    }

    void one(mc::Ctx& ctx, const Types& types, const std::vector<Val>& queries, std::uint64_t& n)
    {
        Registry registry;
        bool made = false;
        std::string all;
        for (auto& q : queries) {
            ++n;
            if (!ctx.mine() || ctx.full())
                continue;
            auto describe = [&] {
                std::string o;
                for (auto& t : types)
                    o += t.first + " = " + dump(t.second) + "; ";
                return o + "expand " + dump(q);
            };
            if (!ctx.beginN(n, describe))
                continue;
            if (!made) {
                for (auto& t : types)
                    registry.add(build(t.second));
                made = true;
            }
            std::string want, got;
            bool clean = true;
            try {
                Expander x(types);
                want = dump(x.expand(q));
            } catch (const Circular&) {
                want = "error";
            }
            auto e = build(q);
            const std::string before = dump(*e);
            try {
                ExpandVisitor x(registry);
                e->clone(); // not needed; expansion must not depend on identity
                struct Go : IVisitor {
                    ExpandVisitor& x;
                    Go(ExpandVisitor& x_) : x(x_) {}
#define GO(T)                                                                                                          \
    void operator()(const T& e) override                                                                               \
    {                                                                                                                  \
        x(e);                                                                                                          \
    }
                    GO(NullElement) GO(HolderElement) GO(StringElement) GO(NumberElement) GO(BooleanElement) GO(ArrayElement)
                        GO(EnumElement) GO(MemberElement) GO(ObjectElement) GO(RefElement) GO(ExtendElement) GO(OptionElement)
                            GO(SelectElement)
#undef GO
                } go(x);
                e->visit(go);
                auto r = x.get();
                // nothing is given back if there is nothing to expand
                got = r ? dump(*r) : before;
                ctx.expect(r.get() != e.get(), "the element itself is given back");
                if (r)
                    clean = !unexpanded(read(*r));
                ctx.expect(!x.get(), "a result is given back twice");
                // again, through the untyped entry
                ExpandVisitor y(registry);
                y(*e);
                auto s = y.get();
                ctx.expect((s ? dump(*s) : before) == got, "differs through the general entry");
            } catch (const snowcrash::Error& err) {
                got = "error";
                ctx.expect(err.code == snowcrash::MSONError && !err.message.empty(), "wrong error");
            }
            ctx.expect(got == want, "gives " + got + ", expected " + want);
            ctx.expect(clean, "a named type is left in " + got);
            ctx.expect(dump(*e) == before, "changed what was to be expanded to " + dump(*e));
            ctx.step();
            ctx.state(describe());
            ctx.outcome(got);
            ctx.trace();
            ctx.sample(describe(), 1);
            for (auto& t : types)
                ctx.expect(dump(registry.find(t.first)) == dump(t.second), "changed the registered " + t.first);
        }
    }

    Val option(std::vector<Val> v)
    {
        return Val(Option, std::move(v));
    }

    // contents of a registered object type
    std::vector<std::vector<Val> > contents(const std::vector<std::string>& names)
    {
        std::vector<std::vector<Val> > o{ {}, { mem("k", str("v")) } };
        for (auto& n : names) {
            o.push_back({ mem("k", Val(Object).named(n)) });
            o.push_back({ mem("k", obj({ mem("own", str("1")) }).named(n)), mem("l", str("v")) });
            o.push_back({ mem("k", arr({ Val(Object).named(n) })) });
            o.push_back({ ref(n) });
        }
        return o;
    }

    std::vector<Val> registered(const std::string& name, const std::vector<std::string>& bases,
        const std::vector<std::string>& names, bool primitives)
    {
        std::vector<Val> o;
        for (auto& b : bases)
            for (auto& c : contents(names))
                o.push_back(obj(c).named(b).metaOf("id", str(name)));
        for (auto& b : bases) {
            if (b == "object")
                continue;
            o.push_back(Val(Object).named(b).metaOf("id", str(name)).attr("typeAttributes", arr({ str("fixed") })).metaOf("title", str("t")));
            if (primitives) {
                o.push_back(str("s").named(b).metaOf("id", str(name)));
                o.push_back(arr({ Val(Number).named(names[0]) }).named(b).metaOf("id", str(name)));
            }
        }
        return o;
    }
}

SCENARIO("type-graphs", 8)
{
    // every pair of types over inheritance, members, arrays of and mixins of each other and themselves
    const std::vector<std::string> names{ "A", "B" };
    const auto as = registered("A", { "object", "A", "B", "Z" }, names, true);
    auto bs = registered("B", { "object", "A", "B", "Z" }, names, true);
    const std::vector<Val> queries{ Val(Object).named("A"), obj({ mem("q", Val(Object).named("B")) }).named("A").metaOf("id", str("Q")),
        ref("A"), arr({ Val(Object).named("A"), ref("B") }), obj({ mem("m", str("x").named("B")) }) };
    std::uint64_t n = 0;
    for (std::size_t i = 0; i <= as.size(); ++i)
        for (std::size_t j = 0; j <= bs.size(); ++j) {
            Types t;
            if (i < as.size())
                t["A"] = as[i];
            if (j < bs.size())
                t["B"] = bs[j];
            one(ctx, t, queries, n);
        }
}

SCENARIO("three-types", 8)
{
    // chains and cycles of three types
    const std::vector<std::string> names{ "A", "B", "C" };
    std::vector<std::vector<Val> > spaces;
    for (auto& name : names) {
        std::vector<Val> o;
        for (auto& b : { "object", "A", "B", "C" })
            for (auto& c : std::vector<std::vector<Val> >{ {}, { mem(name, str(name)) }, { mem("a", Val(Object).named("A")) },
                     { mem("b", Val(Object).named("B")) }, { mem("c", Val(Object).named("C")) }, { ref("A") }, { ref("B") }, { ref("C") } })
                if (ctx.thorough || c.empty() || c[0].kind == Ref || c[0].kids[1].kind == String || std::string(b) == "object"
                    || c[0].kids[0].text == "a")
                    o.push_back(obj(c).named(b).metaOf("id", str(name)));
        spaces.push_back(o);
    }
    const std::vector<Val> queries{ Val(Object).named("A"), ref("B"), arr({ Val(Object).named("A"), Val(Object).named("C") }) };
    std::uint64_t n = 0;
    for (std::size_t i = 0; i < spaces[0].size(); ++i)
        for (std::size_t j = 0; j < spaces[1].size(); ++j)
            for (std::size_t k = 0; k < spaces[2].size(); ++k) {
                Types t;
                t["A"] = spaces[0][i];
                t["B"] = spaces[1][j];
                t["C"] = spaces[2][k];
                one(ctx, t, queries, n);
            }
}

SCENARIO("every-key", 8)
{
    // attributes and meta of every name the code knows, on every kind of element of the type, its base and the query;
    // and chains of every length
    std::uint64_t n = 0;
    for (auto& key : vocabulary())
        for (int meta = 0; meta < 2; ++meta) {
            if (key == "enumerations" && !meta)
                continue;
            auto with = [&](const Val& v, const std::string& x) {
                if (key == "id" && meta)
                    return v;
                return meta ? v.metaOf(key, str(x)) : v.attr(key, str(x));
            };
            Types t;
            t["A"] = with(obj({ with(mem("k", with(str("v"), "1")), "2"), ref("C") }).named("B").metaOf("id", str("A")), "3");
            t["B"] = with(obj({ mem("l", with(arr({ Val(Object).named("C") }), "4")) }).metaOf("id", str("B")), "5");
            t["C"] = with(obj({ with(Val(Select, std::vector<Val>{ with(option({ mem("o", Val(String).named("D")) }), "6") }), "7") }).metaOf("id", str("C")), "8");
            t["D"] = with(str("d").metaOf("id", str("D")), "9");
            std::vector<Val> queries;
            for (auto& q : { Val(Object).named("A"), obj({ mem("q", null()) }).named("A"), ref("A"), ref("D"), arr({ Val(String).named("D") }),
                     Val(Enum, std::vector<Val>{ Val(String).named("D") }), Val(Option, std::vector<Val>{ ref("D") }), mem("m", Val(String).named("D")),
                     Val(Select, std::vector<Val>{ with(option({ ref("D") }), "x") }), Val(Extend, std::vector<Val>{ Val(String).named("D") }),
                     Val(Enum).named("D"), num("1").named("D"), boolean(true).named("D"), Val(Holder, std::vector<Val>{ str("h") }), obj({ ref("C") }),
                     Val(Select, std::vector<Val>{ option({ mem("p", str("q")) }) }) })
                queries.push_back(with(q, "0"));
            one(ctx, t, queries, n);
        }
    std::vector<unsigned> lengths, sizes;
    for (unsigned i = 0; i < 40; ++i) {
        lengths.push_back(i + 1);
        sizes.push_back(i);
    }
    for (auto i : beyond(129))
        lengths.push_back(i);
    for (auto i : beyond(1025))
        sizes.push_back(i);
    for (auto len : lengths) {
        Types chain, nest, mix;
        for (unsigned i = 0; i < len; ++i) {
            const std::string name = "T" + std::to_string(i), next = i + 1 < len ? "T" + std::to_string(i + 1) : "object";
            chain[name] = obj({ mem("m" + std::to_string(i), num("1")) }).named(next).metaOf("id", str(name));
            nest[name] = (i + 1 < len ? obj({ mem("m", Val(Object).named(next)) }) : obj()).metaOf("id", str(name));
            mix[name] = (i + 1 < len ? obj({ ref(next), mem("m", str("x")) }) : obj()).metaOf("id", str(name));
        }
        for (auto* t : { &chain, &nest, &mix })
            one(ctx, *t, { Val(Object).named("T0"), ref("T0"), obj({ mem("k", arr({ Val(Object).named("T" + std::to_string(len / 2)) })) }) }, n);
    }
    // elements of every size around what is to be expanded
    Types d;
    d["D"] = str("d").metaOf("id", str("D"));
    for (auto size : sizes)
        for (auto k : { Array, Object, Extend, Option, Select }) {
            Val v = wide(k, size);
            std::vector<Val> queries{ v };
            for (unsigned i = 0; i <= size; i += size < 10 ? 1 : size < 40 ? 6 : size / 4) {
                Val w = v;
                const Val x = Val(String).named("D");
                w.kids.insert(w.kids.begin() + i, k == Object ? mem("d", x) : k == Select ? option({ mem("d", x) }) : x);
                queries.push_back(w);
            }
            one(ctx, d, queries, n);
        }
}

SCENARIO("places", 8)
{
    // a named element in every place an element can be in, over several registries
    std::vector<Types> registries;
    {
        Types t;
        registries.push_back(t);
        t["A"] = obj({ mem("k", str("v")) }).metaOf("id", str("A"));
        registries.push_back(t);
        t["A"] = obj({ mem("k", Val(Object).named("A")) }).metaOf("id", str("A")).attr("default", obj());
        registries.push_back(t);
        t["A"] = str("s").metaOf("id", str("A")).metaOf("description", str("d"));
        registries.push_back(t);
        t["A"] = str("s").named("B").metaOf("id", str("A"));
        t["B"] = Val(String).metaOf("id", str("B")).attr("sample", str("b"));
        registries.push_back(t);
        t["A"] = Val(Enum, std::vector<Val>{ str("e").named("B") }).attr("enumerations", arr({ str("e"), Val(String).named("B") })).metaOf("id", str("A"));
        registries.push_back(t);
        t["A"] = Val(Enum).attr("enumerations", arr()).metaOf("id", str("A"));
        registries.push_back(t);
        t["A"] = arr({ Val(Number), Val(String).named("B"), ref("B") }).metaOf("id", str("A"));
        registries.push_back(t);
        t["A"] = obj({ ref("B"), Val(Select, std::vector<Val>{ option({ mem("o", Val(Object).named("B")) }), option({ ref("B") }) }) }).metaOf("id", str("A"));
        registries.push_back(t);
        t["A"] = null().named("B").metaOf("id", str("A"));
        registries.push_back(t);
    }
    const std::vector<Val> inner{ Val(Object).named("A"), obj({ mem("x", str("y")) }).named("A"), Val(String).named("A"),
        str("z").named("A"), num("1").named("A"), boolean(true).named("A"), Val(Enum).named("A"),
        Val(Enum, std::vector<Val>{ str("e") }).named("A"), arr({ str("1") }).named("A"), ref("A"), ref(""), ref("Z"), ref("A").attr("x", str("y")),
        null(), str("plain"), Val(Holder, std::vector<Val>{ Val(Object).named("A") }), obj({ mem("x", Val(Array).named("A")) }),
        Val(String).named("Z"), Val(String).named("A").metaOf("id", str("I")), Val(Number).named("A").metaOf("id", Val(String)).metaOf("title", str("t")),
        Val(Enum, std::vector<Val>()), mem("direct", Val(Object).named("A")) };
    std::vector<Val> queries;
    for (auto& v : inner) {
        queries.push_back(v);
        for (auto& w : { arr({ str("0"), v }), arr({ v, v }).attr("a", v).metaOf("id", str("O")), obj({ mem("k", v) }), obj({ mem("j", null()), mem(str("k").metaOf("d", str("d")), v).attr("typeAttributes", arr({ str("required") })) }),
                 obj({ v }), mem(v, v), option({ mem("o", v) }), obj({ Val(Select, std::vector<Val>{ option({ mem("o", v) }), option({ mem("p", str("q")) }) }) }),
                 Val(Enum, std::vector<Val>{ v }), Val(Enum).attr("enumerations", arr({ v, str("f") })),
                 Val(Enum, std::vector<Val>{ str("f") }).attr("default", Val(Enum, std::vector<Val>{ v })).attr("enumerations", arr({ v })).metaOf("id", str("E")),
                 Val(Extend, std::vector<Val>{ v, str("x") }), arr({ arr({ arr({ v }) }) }), obj({ mem("k", obj({ mem("l", arr({ v })) })) }),
                 Val(Holder, std::vector<Val>{ v }), Val(Select, std::vector<Val>{ option({ v }) }).metaOf("title", str("t")),
                 arr({ Val(Enum, std::vector<Val>{ v }) }), arr({ Val(Enum).attr("enumerations", arr({ str("f"), v })) }),
                 obj({ mem("k", Val(Enum, std::vector<Val>{ v })), mem("l", Val(Enum, std::vector<Val>{ str("f") }).attr("enumerations", arr({ v }))) }),
                 obj({ mem("k", Val(Enum, std::vector<Val>{ str("g") }).attr("default", v)) }), obj({ mem("k", str("f")).named("A"), v }), mem("k", v).named("A"),
                 arr({ Val(Extend, std::vector<Val>{ str("x"), v }) }) })
            queries.push_back(w);
    }
    if (ctx.thorough) {
        auto base = queries;
        for (auto& v : base)
            for (auto& w : { arr({ v }), obj({ mem("deep", v) }), obj({ mem("deep", v) }).named("A"), arr({ v }).named("B") })
                queries.push_back(w);
    }
    std::uint64_t n = 0;
    for (auto& t : registries)
        one(ctx, t, queries, n);
}

MC_MAIN
