// C14: visiting, asking for the kind, walking, filtering and printing elements.
#include "elems.hpp"
#include "refract/ComparableVisitor.h"
#include "refract/FilterVisitor.h"
#include "refract/Iterate.h"
#include "refract/PrintVisitor.h"
#include "refract/Query.h"
#include "refract/TypeQueryVisitor.h"

using namespace em;

namespace
{
    // kind of the static type a handler got
    Kind kindOf(const NullElement&) { return Null; }
    Kind kindOf(const HolderElement&) { return Holder; }
    Kind kindOf(const StringElement&) { return String; }
    Kind kindOf(const NumberElement&) { return Number; }
    Kind kindOf(const BooleanElement&) { return Boolean; }
    Kind kindOf(const ArrayElement&) { return Array; }
    Kind kindOf(const MemberElement&) { return Member; }
    Kind kindOf(const ObjectElement&) { return Object; }
    Kind kindOf(const EnumElement&) { return Enum; }
    Kind kindOf(const RefElement&) { return Ref; }
    Kind kindOf(const ExtendElement&) { return Extend; }
    Kind kindOf(const OptionElement&) { return Option; }
    Kind kindOf(const SelectElement&) { return Select; }
    Kind kindOf(const IElement&) { return Kinds; }

    struct Seen {
        std::vector<std::pair<Kind, const IElement*> > calls;
        template <typename E>
        void operator()(const E& e)
        {
            calls.emplace_back(kindOf(e), &e);
        }
    };

    struct ByInterface : IVisitor {
        Seen seen;
#define GO(T)                                                                                                          \
    void operator()(const T& e) override                                                                               \
    {                                                                                                                  \
        seen(e);                                                                                                       \
    }
        GO(NullElement) GO(HolderElement) GO(StringElement) GO(NumberElement) GO(BooleanElement) GO(ArrayElement)
            GO(EnumElement) GO(MemberElement) GO(ObjectElement) GO(RefElement) GO(ExtendElement) GO(OptionElement)
                GO(SelectElement)
#undef GO
    };

    struct KindFunctor {
        template <typename E>
        int operator()(const E& e) const
        {
            return kindOf(e);
        }
    };
    struct AddressFunctor {
        template <typename E>
        const IElement& operator()(const E& e) const
        {
            return e;
        }
    };
    struct VoidFunctor {
        Seen* seen;
        template <typename E>
        void operator()(const E& e) const
        {
            (*seen)(e);
        }
    };

    struct At : IVisitor {
        std::size_t i;
        const IElement* out = nullptr;
        template <typename E>
        void list(const E& e)
        {
            out = e.get().begin()[i].get();
        }
        void operator()(const NullElement&) override {}
        void operator()(const HolderElement& e) override { out = e.get().data(); }
        void operator()(const StringElement&) override {}
        void operator()(const NumberElement&) override {}
        void operator()(const BooleanElement&) override {}
        void operator()(const ArrayElement& e) override { list(e); }
        void operator()(const EnumElement& e) override { out = e.get().value(); }
        void operator()(const MemberElement& e) override { out = i ? e.get().value() : e.get().key(); }
        void operator()(const ObjectElement& e) override { list(e); }
        void operator()(const RefElement&) override {}
        void operator()(const ExtendElement& e) override { list(e); }
        void operator()(const OptionElement& e) override { list(e); }
        void operator()(const SelectElement& e) override { list(e); }
    };

    const IElement* entryAt(const IElement& e, std::size_t i)
    {
        At at;
        at.i = i;
        e.visit(at);
        return at.out;
    }

    bool isList(Kind k)
    {
        return k == Array || k == Object || k == Extend || k == Option || k == Select;
    }

    struct Walked {
        std::vector<std::pair<Kind, const IElement*> > all;
        std::vector<std::string> names;
    };

    // an element, then what its value contains, in order; the content of an enum or a holder is its own affair
    void walk(const Val& v, const IElement& e, Walked& w)
    {
        w.all.emplace_back(v.kind, &e);
        w.names.push_back(v.name);
        if (v.has && (isList(v.kind) || v.kind == Member))
            for (std::size_t i = 0; i < v.kids.size(); ++i)
                walk(v.kids[i], *entryAt(e, i), w);
    }

    std::string list(const std::vector<std::pair<Kind, const IElement*> >& c)
    {
        std::string o;
        for (auto& x : c)
            o += std::string(x.first == Kinds ? "?" : kindName(x.first)) + "/" + dump(x.second) + " ";
        return o;
    }

    // ------------------------------------------------ the outline

    void outline(std::string& o, int depth, const Val& v);

    void line(std::string& o, int depth, const std::string& s)
    {
        o += std::string(2 * depth, ' ') + s + "\n";
    }

    void body(std::string& o, int depth, const Val& v)
    {
        const std::string none = "<empty>";
        switch (v.kind) {
            case Null:
                line(o, depth, "- Null");
                break;
            case Holder:
                line(o, depth, "- Holder[" + v.name + "]");
                outline(o, depth + 1, v.kids[0]);
                break;
            case String:
                line(o, depth, "- String " + (v.has ? "\"" + v.text + "\"" : none));
                break;
            case Number:
                line(o, depth, "- Number " + (v.has ? v.text : none));
                break;
            case Boolean:
                line(o, depth, "- Boolean " + (v.has ? std::string(v.text == "true" ? "1" : "0") : none));
                break;
            case Ref:
                line(o, depth, "- RefElement " + (v.has ? "&[" + v.text + "]" : none));
                break;
            case Member:
                line(o, depth, "- MemberElement");
                outline(o, depth + 1, v.kids[0]);
                outline(o, depth + 1, v.kids[1]);
                break;
            case Enum:
                line(o, depth, "- EnumElement ");
                if (v.has && !v.kids.empty())
                    outline(o, depth + 1, v.kids[0]);
                break;
            default: {
                std::string n = kindName(v.kind);
                n[0] = static_cast<char>(n[0] - 'a' + 'A');
                line(o, depth, "- " + n + "Element");
                if (v.has)
                    for (auto& k : v.kids)
                        if (v.kind == Select)
                            body(o, depth + 1, k); // an option of a select is shown by its content
                        else
                            outline(o, depth + 1, k);
            }
        }
    }

    void outline(std::string& o, int depth, const Val& v)
    {
        line(o, depth, "+ " + v.name);
        line(o, depth + 1, "- <meta>");
        for (auto& m : v.meta) {
            line(o, depth + 2, "- `" + m.first + "`");
            outline(o, depth + 2, m.second);
        }
        line(o, depth + 1, "- <attr>");
        for (auto& a : v.attrs)
            if (a.first != "sourceMap") {
                line(o, depth + 2, "- `" + a.first + "`");
                outline(o, depth + 2, a.second);
            }
        body(o, depth + 1, v);
    }

    bool complete(const Val& v)
    {
        if (v.kind == Holder && v.kids.empty())
            return false;
        if (v.kind == Member && v.kids.size() < 2)
            return false;
        for (auto& k : v.kids)
            if (!complete(k))
                return false;
        for (auto& k : v.attrs)
            if (!complete(k.second))
                return false;
        for (auto& k : v.meta)
            if (!complete(k.second))
                return false;
        return true;
    }

    template <typename E>
    void ask(mc::Ctx& ctx, Kind k, const Val& v, IElement& e)
    {
        const IElement& c = e;
        const void* want = v.kind == k ? static_cast<const void*>(&c) : nullptr;
        const E* a = TypeQueryVisitor::as<const E>(&c);
        const E* b = TypeQueryVisitor::as<E>(&c);
        E* d = TypeQueryVisitor::as<E>(&e);
        ctx.expect(static_cast<const void*>(static_cast<const IElement*>(a)) == want
                && static_cast<const void*>(static_cast<const IElement*>(b)) == want
                && static_cast<const void*>(static_cast<IElement*>(d)) == want,
            std::string("asked for ") + kindName(k) + (want ? " gives nothing or another" : " gives something"));
        ctx.expect(!TypeQueryVisitor::as<E>(static_cast<IElement*>(nullptr))
                && !TypeQueryVisitor::as<const E>(static_cast<const IElement*>(nullptr)),
            "nothing is given as something");
        ctx.step(4);
    }

    TypeQueryVisitor::ElementType queried(Kind k)
    {
        const TypeQueryVisitor::ElementType t[] = { TypeQueryVisitor::Null, TypeQueryVisitor::Holder,
            TypeQueryVisitor::String, TypeQueryVisitor::Number, TypeQueryVisitor::Boolean, TypeQueryVisitor::Array,
            TypeQueryVisitor::Member, TypeQueryVisitor::Object, TypeQueryVisitor::Enum, TypeQueryVisitor::Ref,
            TypeQueryVisitor::Extend, TypeQueryVisitor::Option, TypeQueryVisitor::Select };
        return t[k];
    }

    // the text an element is, or the value of a member is
    bool is(const Val& v, const std::string& text)
    {
        if (v.kind == Member)
            return v.kids.size() > 1 && is(v.kids[1], text);
        return v.kind == String && v.text == text;
    }

    std::vector<Val> space(bool thorough)
    {
        std::vector<Val> o = leaves();
        for (auto& v : leaves()) {
            o.push_back(v.named("Named"));
            o.push_back(v.attr("a", v).metaOf("b", v));
        }
        o.push_back(Val(Enum, std::vector<Val>()));
        o.push_back(Val(Member, std::vector<Val>()));
        o.push_back(Val(Member, std::vector<Val>{ str("k") }));
        o.push_back(Val(Holder, std::vector<Val>()));
        const std::vector<Val> entries{ str("a"), Val(Number).named("Named"), mem("a", obj({ mem("b", Val(String)) })),
            Val(Option, std::vector<Val>{ mem("o", str("1").attr("default", str("2"))) }),
            Val(Select, std::vector<Val>{ Val(Option, std::vector<Val>{ ref("R") }), Val(Option) }),
            Val(Enum, std::vector<Val>{ arr({ str("e") }) }).attr("enumerations", arr({ str("e") })).attr("sourceMap", arr({ num("1") })),
            Val(Holder, std::vector<Val>{ Val(Extend, std::vector<Val>{ str("h").named("Named"), str("i") }) }), null(),
            mem(Val(Extend, std::vector<Val>{ str("k") }), arr({ arr({ boolean(true) }), arr() })) };
        for (auto& v : containers(entries, 2))
            o.push_back(v);
        for (auto& v : containers({ entries[0], entries[2], entries[3], entries[8] }, thorough ? 4 : 3))
            if (v.kids.size() > 2)
                o.push_back(v);
        for (auto& v : containers(entries, 1))
            for (auto& w : containers({ v, entries[1] }, 2))
                o.push_back(w);
        // every order of up to three attributes and meta, the source map among them
        const std::vector<std::string> keys{ "sourceMap", "id", "a", "description" };
        for (auto& base : { str("s"), arr({ str("e").attr("sourceMap", arr()).attr("z", str("y")) }), null(), mem("k", str("v")), Val(Enum) })
            for (auto& i : keys)
                for (auto& j : keys)
                    for (auto& k : keys) {
                        if (i == j && j != k)
                            continue;
                        Val v = base.attr(i, str("1")), m = base.metaOf(i, str("1"));
                        if (j != i) {
                            v = v.attr(j, arr({ num("2") }));
                            m = m.metaOf(j, arr({ num("2").attr(j, null()) }));
                        }
                        if (k != i && k != j) {
                            v = v.attr(k, null().attr(i, str("3")).attr(k, str("4")));
                            m = m.metaOf(k, null());
                        }
                        o.push_back(v);
                        o.push_back(m);
                        o.push_back(arr({ v, m }));
                    }
        for (unsigned n = 0; n < 40; ++n)
            o.push_back(deep(n));
        for (unsigned n = 3; n < 70; n += 6)
            for (auto k : { Array, Object, Extend, Option, Select })
                o.push_back(wide(k, n));
        for (auto& v : large(513, 129))
            o.push_back(v);
        for (auto& k : vocabulary())
            o.push_back(arr({ str("x").named(k).attr(k, num("1")).metaOf(k, num("2")), str("Named"), obj({ mem(k, null().named(k)) }).named(k) }));
        return o;
    }
}

SCENARIO("elements", 8)
{
    const auto all = space(ctx.thorough);
    std::uint64_t n = 0;
    for (auto& v : all) {
        ++n;
        if (!ctx.mine() || ctx.full())
            continue;
        const std::string text = dump(v);
        auto describe = [&] { return text; };
        if (!ctx.beginN(n, describe))
            continue;
        auto e = build(v);
        const IElement& c = *e;
        const std::vector<std::pair<Kind, const IElement*> > self{ { v.kind, &c } };

        // visiting
        {
            ByInterface i;
            c.visit(i);
            ctx.expect(i.seen.calls == self, "visited as " + list(i.seen.calls));
            Seen s;
            VisitBy(c, s);
            ctx.expect(s.calls == self, "visited by its content as " + list(s.calls));
            Seen t;
            Visit(t, c);
            ctx.expect(t.calls.size() == 1 && t.calls[0].second == &c && t.calls[0].first == Kinds, "visited as it is as " + list(t.calls));
            Seen u;
            refract::visit(c, VoidFunctor{ &u });
            ctx.expect(u.calls == self, "visited with a function as " + list(u.calls));
            ctx.expect(refract::visit(c, KindFunctor{}) == v.kind, "visited with a function that gives a value as another kind");
            ctx.expect(&refract::visit(c, AddressFunctor{}) == &c, "visited with a function that gives a reference as another element");
            ctx.step(6);
        }
        // its kind
        {
            TypeQueryVisitor q, r;
            ctx.expect(q.get() == TypeQueryVisitor::Unknown, "a kind before anything is asked");
            VisitBy(c, q);
            Visit(r, c);
            ctx.expect(q.get() == queried(v.kind) && r.get() == queried(v.kind), "is of kind " + std::to_string(q.get()));
            ask<NullElement>(ctx, Null, v, *e);
            ask<HolderElement>(ctx, Holder, v, *e);
            ask<StringElement>(ctx, String, v, *e);
            ask<NumberElement>(ctx, Number, v, *e);
            ask<BooleanElement>(ctx, Boolean, v, *e);
            ask<ArrayElement>(ctx, Array, v, *e);
            ask<MemberElement>(ctx, Member, v, *e);
            ask<ObjectElement>(ctx, Object, v, *e);
            ask<EnumElement>(ctx, Enum, v, *e);
            ask<RefElement>(ctx, Ref, v, *e);
            ask<ExtendElement>(ctx, Extend, v, *e);
            ask<OptionElement>(ctx, Option, v, *e);
            ask<SelectElement>(ctx, Select, v, *e);
        }
        // whether it is a text, or the key or the value of a member is
        for (auto text : { std::string(), std::string("a"), std::string("k"), std::string("s"), v.text, v.kids.empty() ? "b" : v.kids[0].text,
                 v.kids.size() < 2 ? "o" : v.kids[1].text }) {
            ComparableVisitor k(text, ComparableVisitor::key), w(text, ComparableVisitor::value), d(text);
            VisitBy(c, k);
            VisitBy(c, w);
            VisitBy(c, d);
            const bool key = v.kind == Member && v.kids.size() > 0 && is(v.kids[0], text), value = is(v, text);
            ctx.expect(k.get() == key, "the key " + std::string(key ? "is not" : "is") + " taken for " + mc::quote(text));
            ctx.expect(w.get() == value && d.get() == value, "the value " + std::string(value ? "is not" : "is") + " taken for " + mc::quote(text));
            ctx.step(3);
        }
        // walking, twice with the same walker
        Walked w;
        walk(v, c, w);
        {
            Seen s;
            Iterate<Recursive> it(s);
            it(c);
            ctx.expect(s.calls == w.all, "walked as " + list(s.calls) + ", expected " + list(w.all));
            it(c);
            auto twice = w.all;
            twice.insert(twice.end(), w.all.begin(), w.all.end());
            ctx.expect(s.calls == twice, "walked differently the second time");
            ctx.step(2);
        }
        {
            std::vector<std::pair<Kind, const IElement*> > kids;
            if (v.has && isList(v.kind))
                for (std::size_t i = 0; i < v.kids.size(); ++i)
                    kids.emplace_back(v.kids[i].kind, entryAt(c, i));
            Seen s;
            Iterate<Children> it(s);
            it(c);
            ctx.expect(s.calls == kids, "entries walked as " + list(s.calls) + ", expected " + list(kids));
            it(c);
            auto twice = kids;
            twice.insert(twice.end(), kids.begin(), kids.end());
            ctx.expect(s.calls == twice, "entries walked differently the second time");
            ctx.step(2);
            // filtered
            for (auto name : { std::string("Named"), std::string("string"), std::string("array"), std::string("member"), std::string(""),
                     std::string("name"), v.name }) {
                std::vector<const IElement*> deepest, direct;
                for (std::size_t i = 0; i < w.all.size(); ++i)
                    if (w.names[i] == name)
                        deepest.push_back(w.all[i].second);
                for (auto& k : kids)
                    if (k.second->element() == name)
                        direct.push_back(k.second);
                FilterVisitor f{ query::Element(name) }, g{ query::Element(name) };
                Iterate<Recursive> a(f);
                a(c);
                Iterate<Children> b(g);
                b(c);
                ctx.expect(f.elements() == deepest && f.empty() == deepest.empty(), "filtered by " + mc::quote(name) + " gives "
                        + std::to_string(f.elements().size()) + " elements, expected " + std::to_string(deepest.size()));
                ctx.expect(g.elements() == direct && g.empty() == direct.empty(), "entries filtered by " + mc::quote(name) + " give "
                        + std::to_string(g.elements().size()) + " elements, expected " + std::to_string(direct.size()));
                query::Element q(name);
                ctx.expect(q(c) == (v.name == name), "the query for " + mc::quote(name) + " answers wrong");
                ctx.outcome(std::to_string(deepest.size()) + "/" + std::to_string(direct.size()));
                ctx.step(3);
            }
            FilterVisitor every([](const IElement&) { return true; }), none([](const IElement&) { return false; });
            Iterate<Recursive> a(every), b(none);
            a(c);
            b(c);
            ctx.expect(every.elements().size() == w.all.size() && none.empty(), "filtered by nothing or everything");
        }
        // printed
        if (complete(v))
            for (int indent : { 0, 3 }) {
                std::ostringstream out;
                PrintVisitor p(indent, out);
                Visit(p, c);
                std::string want;
                outline(want, indent, v);
                ctx.expect(out.str() == want, "is printed as " + out.str() + "\nexpected " + want);
                ctx.step();
            }
        ctx.expect(dump(c) == text, "changed to " + dump(c));
        ctx.state(text);
        ctx.outcome(list(w.all).substr(0, 60));
        ctx.trace();
        ctx.sample(text, 1);
    }
}

MC_MAIN
