// C07: clones, copies and moves of elements.
#include "elems.hpp"

using namespace em;

namespace
{
    std::vector<Val> decorate(const std::vector<Val>& base, bool many)
    {
        const std::vector<Info> infos{ {}, { { "id", str("X") } }, { { "a", num("7") } },
            { { "id", str("X") }, { "a", Val(Array) } }, { { "b", arr({ str("a").metaOf("id", str("Y")) }) }, { "id", Val(String) } },
            { { "a", str("1") }, { "id", num("3") }, { "c", mem("k", str("v")).attr("id", null()) } } };
        std::vector<Val> o;
        for (auto& v : base)
            for (std::size_t a = 0; a < infos.size(); ++a)
                for (std::size_t m = 0; m < infos.size(); ++m) {
                    if (!many && a != m && a && m)
                        continue;
                    Val x = v;
                    x.attrs = infos[a];
                    x.meta = infos[m];
                    o.push_back(x);
                    if (many || a == m)
                        o.push_back(x.named("Named"));
                }
        return o;
    }

    // one element of every kind with every key the code knows; and every size
    std::vector<Val> special()
    {
        std::vector<Val> o;
        for (auto& k : vocabulary())
            for (auto& v : { Val(Null), str("a"), num("7"), boolean(true), ref("R"), arr({ str("a") }), obj({ mem("a", str("b")) }),
                     mem("a", str("b")), Val(Enum, std::vector<Val>{ str("a") }), Val(Extend, std::vector<Val>{ str("a") }),
                     Val(Option, std::vector<Val>{ mem("a", str("b")) }), Val(Select, std::vector<Val>{ Val(Option) }),
                     Val(Holder, std::vector<Val>{ str("a") }) }) {
                o.push_back(v.attr(k, str("1")).attr("other", num("2")));
                o.push_back(v.metaOf("other", num("2")).metaOf(k, str("1")));
                if (!v.kids.empty() && v.kids[0].kind == String) {
                    Val w = v;
                    w.kids[0] = v.kids[0].metaOf(k, num("3")).attr(k, null());
                    o.push_back(w);
                }
            }
        for (auto& k : vocabulary()) {
            o.push_back(str("a").named(k));
            o.push_back(obj({ mem(k, str(k)) }));
        }
        for (unsigned n = 0; n < 70; n += n < 40 ? 1 : 7) {
            for (auto k : { Array, Object, Extend, Option, Select })
                o.push_back(wide(k, n));
            Val v = str("x");
            for (unsigned i = 0; i < n; ++i) {
                v = v.attr("a" + std::to_string(i), num(std::to_string(i)));
                v = v.metaOf(i == n / 2 ? "id" : "m" + std::to_string(i), str(std::to_string(i)));
            }
            o.push_back(v);
            o.push_back(str(std::string(n * 5, 's')));
        }
        for (unsigned n = 0; n < 40; ++n)
            o.push_back(deep(n));
        for (auto& v : large(257, 129))
            o.push_back(v);
        return o;
    }

    std::vector<Val> space(bool thorough)
    {
        std::vector<Val> o = decorate(leaves(), true);
        for (auto& v : special())
            o.push_back(v);
        const std::vector<Val> entries{ str("a"), Val(Number).named("T").metaOf("id", str("q")), mem("a", obj({ mem("b", Val(String)) })),
            Val(Option, std::vector<Val>{ mem("o", str("1").attr("default", str("2"))) }), ref("R").attr("resolved", obj({ mem("x", null()) })),
            Val(Enum, std::vector<Val>{ arr({ str("e") }) }).attr("enumerations", arr({ str("e"), num("1") })),
            Val(Holder, std::vector<Val>{ Val(Extend, std::vector<Val>{ str("h"), str("i") }) }), null() };
        for (auto& v : decorate(containers(entries, 2), thorough))
            o.push_back(v);
        if (thorough)
            for (auto& v : containers(entries, 4))
                o.push_back(v);
        else
            for (auto& v : containers(entries, 3))
                o.push_back(v);
        return o;
    }

    Val cloned(const Val& v, int flags)
    {
        Val o(v.kind);
        if (flags & IElement::cElement)
            o.name = v.name;
        if (flags & IElement::cAttributes)
            o.attrs = v.attrs;
        if (flags & IElement::cMeta) {
            for (auto& m : v.meta)
                if (!(flags & IElement::cNoMetaId) || m.first != "id")
                    o.meta.push_back(m);
        }
        if (flags & IElement::cValue) {
            o.has = v.has;
            o.text = v.text;
            o.kids = v.kids;
        }
        return o;
    }

    // changes everything that can be changed, at every level
    struct Spoil : IVisitor {
        static void info(InfoElements& i)
        {
            for (auto& e : i)
                all(*e.second);
            i.set("spoilt", from_primitive(true));
        }
        static void all(const IElement& e)
        {
            Spoil s;
            e.visit(s);
            auto& m = const_cast<IElement&>(e);
            info(m.attributes());
            info(m.meta());
            m.element("Spoilt");
        }
        template <typename E>
        static E& edit(const E& e)
        {
            return const_cast<E&>(e);
        }
        template <typename E>
        void list(const E& e)
        {
            if (!e.empty()) {
                for (auto& c : e.get())
                    if (c)
                        all(*c);
                edit(e).get().clear();
            } else
                edit(e).set();
        }
        void operator()(const NullElement& e) override
        {
            edit(e).set();
        }
        void operator()(const HolderElement& e) override
        {
            if (!e.empty() && e.get().data())
                all(*e.get().data());
            edit(e).set();
        }
        void operator()(const StringElement& e) override
        {
            edit(e).set(dsd::String("spoilt"));
        }
        void operator()(const NumberElement& e) override
        {
            edit(e).set(dsd::Number("99"));
        }
        void operator()(const BooleanElement& e) override
        {
            edit(e).set(dsd::Boolean(e.empty() || !e.get()));
        }
        void operator()(const ArrayElement& e) override
        {
            list(e);
        }
        void operator()(const EnumElement& e) override
        {
            if (!e.empty() && e.get().value())
                all(*e.get().value());
            edit(e).set();
        }
        void operator()(const MemberElement& e) override
        {
            if (!e.empty()) {
                if (e.get().key())
                    all(*e.get().key());
                if (e.get().value())
                    all(*e.get().value());
            }
            edit(e).set();
        }
        void operator()(const ObjectElement& e) override
        {
            list(e);
        }
        void operator()(const RefElement& e) override
        {
            edit(e).set(dsd::Ref("Spoilt"));
        }
        void operator()(const ExtendElement& e) override
        {
            list(e);
        }
        void operator()(const OptionElement& e) override
        {
            list(e);
        }
        void operator()(const SelectElement& e) override
        {
            list(e);
        }
    };

    // copies and moves of the concrete type
    struct Values : IVisitor {
        mc::Ctx& ctx;
        const Val& v;
        const std::string& want;
        Values(mc::Ctx& c, const Val& v_, const std::string& w) : ctx(c), v(v_), want(w) {}

        template <typename E>
        void run(const E& e)
        {
            {
                E copy(e);
                ctx.expect(dump(copy) == want, "copied as " + dump(copy));
                E moved(std::move(copy));
                ctx.expect(dump(moved) == want, "moved as " + dump(moved));
                E other(moved);
                Spoil::all(other);
                ctx.expect(dump(moved) == want, "changed with its copy to " + dump(moved));
                other = moved;
                ctx.expect(dump(other) == want, "assigned as " + dump(other));
                ctx.expect(dump(moved) == want, "changed by being assigned to " + dump(moved));
                E& alias = other;
                other = alias;
                ctx.expect(dump(other) == want, "assigned to itself as " + dump(other));
                E third;
                third = std::move(other);
                ctx.expect(dump(third) == want, "move-assigned as " + dump(third));
                Spoil::all(third);
                ctx.expect(dump(e) == want, "changed with a copy to " + dump(e));
            }
            ctx.expect(dump(e) == want, "changed with the end of its copies to " + dump(e));
            auto c = refract::clone(e);
            ctx.expect(c && dump(*c) == want, "cloned as its type as " + dump(c.get()));
            if (!e.empty()) {
                // the value alone
                typename E::ValueType data(e.get()), data2;
                data2 = data;
                typename E::ValueType data3(std::move(data));
                using std::swap;
                swap(data2, data3);
                data3 = std::move(data2);
                E one(data3), two("Other", e.get()), three;
                three.set(e.get());
                Val plain = v;
                plain.attrs.clear();
                plain.meta.clear();
                plain.name = defaultName(v.kind);
                const std::string p = dump(plain);
                ctx.expect(dump(one) == p, "made from its value as " + dump(one));
                ctx.expect(dump(three) == p, "set to its value as " + dump(three));
                plain.name = "Other";
                ctx.expect(dump(two) == dump(plain), "made from a name and its value as " + dump(two));
                ctx.step(3);
            }
            ctx.step(8);
        }
        void operator()(const NullElement& e) override { run(e); }
        void operator()(const HolderElement& e) override { run(e); }
        void operator()(const StringElement& e) override { run(e); }
        void operator()(const NumberElement& e) override { run(e); }
        void operator()(const BooleanElement& e) override { run(e); }
        void operator()(const ArrayElement& e) override { run(e); }
        void operator()(const EnumElement& e) override { run(e); }
        void operator()(const MemberElement& e) override { run(e); }
        void operator()(const ObjectElement& e) override { run(e); }
        void operator()(const RefElement& e) override { run(e); }
        void operator()(const ExtendElement& e) override { run(e); }
        void operator()(const OptionElement& e) override { run(e); }
        void operator()(const SelectElement& e) override { run(e); }
    };
}

SCENARIO("clone-flags", 8)
{
    const auto all = space(ctx.thorough);
    std::uint64_t n = 0;
    for (auto& v : all) {
        ++n;
        if (!ctx.mine() || ctx.full())
            continue;
        const std::string want = dump(v);
        auto describe = [&] { return want; };
        if (!ctx.beginN(n, describe))
            continue;
        ctx.state(want);
        for (int flags = 0; flags < 32; ++flags) {
            auto e = build(v);
            const std::string exp = dump(cloned(v, flags));
            auto c = flags == IElement::cAll ? e->clone() : e->clone(flags);
            ctx.step();
            if (!ctx.expect(c && dump(*c) == exp, "cloned with flags " + std::to_string(flags) + " as " + dump(c.get())
                        + ", expected " + exp))
                break;
            if (!ctx.expect(dump(*e) == want, "changed by cloning it to " + dump(*e)))
                break;
            Spoil::all(*e);
            if (!ctx.expect(dump(*c) == exp, "the clone changed with the original to " + dump(*c)))
                break;
            e.reset();
            if (!ctx.expect(dump(*c) == exp, "the clone changed with the end of the original to " + dump(*c)))
                break;
            e = c->clone();
            Spoil::all(*c);
            c.reset();
            if (!ctx.expect(dump(*e) == exp, "the clone's clone changed with it to " + dump(*e)))
                break;
            ctx.outcome(exp);
        }
        ctx.trace();
        ctx.sample(want);
    }
}

SCENARIO("copies", 8)
{
    const auto all = space(ctx.thorough);
    std::uint64_t n = 0;
    for (auto& v : all) {
        ++n;
        if (!ctx.mine() || ctx.full())
            continue;
        const std::string want = dump(v);
        auto describe = [&] { return want; };
        if (!ctx.beginN(n, describe))
            continue;
        auto e = build(v);
        if (!ctx.expect(dump(*e) == want, "built as " + dump(*e)))
            continue;
        Values values(ctx, v, want);
        e->visit(values);
        ctx.expect(dump(*e) == want, "changed to " + dump(*e));
        ctx.state(want);
        ctx.trace();
        ctx.sample(want);
    }
}

MC_MAIN
