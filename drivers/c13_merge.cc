// C13: merging a chain of elements, the base first, into one.
#include "elems.hpp"
#include "refract/Exception.h"

using namespace em;

namespace
{
    struct Different {
    };

    void put(Info& i, const std::string& k, const Val& v)
    {
        for (auto& e : i)
            if (e.first == k) {
                e.second = v;
                return;
            }
        i.emplace_back(k, v);
    }

    const Val* at(const Info& i, const std::string& k)
    {
        for (auto& e : i)
            if (e.first == k)
                return &e.second;
        return nullptr;
    }

    bool same(const Val& a, const Val& b);
    bool same(const Info& a, const Info& b)
    {
        if (a.size() != b.size())
            return false;
        for (std::size_t i = 0; i < a.size(); ++i)
            if (a[i].first != b[i].first || !same(a[i].second, b[i].second))
                return false;
        return true;
    }
    bool same(const Val& a, const Val& b)
    {
        if (a.kind != b.kind || a.has != b.has || !same(a.attrs, b.attrs) || !same(a.meta, b.meta))
            return false;
        if (!a.has)
            return true;
        if (a.text != b.text || a.kids.size() != b.kids.size())
            return false;
        for (std::size_t i = 0; i < a.kids.size(); ++i)
            if (!same(a.kids[i], b.kids[i]))
                return false;
        return true;
    }

    // the plain name of a member
    bool nameOf(const Val& m, std::string& out)
    {
        if (m.kind != Member || !m.has || m.kids.empty() || m.kids[0].kind != String || !m.kids[0].has)
            return false;
        out = m.kids[0].text;
        return true;
    }

    bool replaces(const Val& later, const Val& earlier)
    {
        if (later.kind == Ref)
            return earlier.kind == Ref && earlier.text == later.text;
        std::string a, b;
        if (!nameOf(later, a))
            return false;
        if (earlier.kind == Member)
            return nameOf(earlier, b) && a == b;
        if (earlier.kind == Select)
            for (auto& o : earlier.kids)
                for (auto& m : o.kids)
                    if (nameOf(m, b) && a == b)
                        return true;
        return false;
    }

    // dropping: as known finding F10 has it, the items merged into an array without a value are lost
    void mergeInto(Val& t, const Val& a, bool dropping)
    {
        for (auto& m : a.meta)
            if (m.first != "id" && m.first != "prefix" && m.first != "namespace")
                put(t.meta, m.first, m.second);
        for (auto& x : a.attrs) {
            if (t.kind == Enum && x.first == "enumerations")
                continue;
            put(t.attrs, x.first, x.second);
        }
        if (t.kind == Enum)
            if (auto more = at(a.attrs, "enumerations"))
                if (!more->kids.empty()) {
                    if (!at(t.attrs, "enumerations"))
                        put(t.attrs, "enumerations", *more);
                    else {
                        Val e = *at(t.attrs, "enumerations");
                        for (auto& m : more->kids) {
                            for (auto it = e.kids.begin(); it != e.kids.end(); ++it)
                                if (same(*it, m)) {
                                    e.kids.erase(it);
                                    break;
                                }
                            e.kids.push_back(m);
                        }
                        put(t.attrs, "enumerations", e);
                    }
                }
        if (!a.has)
            return;
        if (t.kind == Array) {
            if (dropping && !t.has)
                return;
            t.has = t.has || !a.kids.empty(); // no items, nothing to merge: the array stays without a value
            t.kids.insert(t.kids.end(), a.kids.begin(), a.kids.end());
        } else if (t.kind == Object) {
            for (auto& m : a.kids) {
                t.has = true;
                auto it = t.kids.begin();
                while (it != t.kids.end() && !replaces(m, *it))
                    ++it;
                if (it == t.kids.end())
                    t.kids.push_back(m);
                else
                    *it = m;
            }
        } else {
            t.has = true;
            t.text = a.text;
            t.kids = a.kids;
        }
    }

    // -> "<none>", "error" or the merged element
    std::string merged(const std::vector<Val>& chain, bool dropping = false)
    {
        if (chain.empty())
            return "<none>";
        Val t = chain[0];
        for (std::size_t i = 1; i < chain.size(); ++i) {
            if (chain[i].kind != t.kind)
                return "error";
            switch (t.kind) {
                case String:
                case Number:
                case Boolean:
                case Array:
                case Object:
                case Enum:
                case Ref:
                    mergeInto(t, chain[i], dropping);
                    break;
                default:
                    return "error";
            }
        }
        return dump(t);
    }

    void one(mc::Ctx& ctx, const std::vector<Val>& chain, std::uint64_t n)
    {
        auto describe = [&] { return dump(Val(Extend, chain)); };
        if (!ctx.beginN(n, describe))
            return;
        const std::string want = merged(chain), before = describe();
        auto e = build(Val(Extend, chain));
        const auto& ext = static_cast<const ExtendElement&>(*e);
        std::string got;
        try {
            auto r = ext.get().merge();
            got = dump(r.get());
            ctx.expect(dump(*e) == before, "merging changed the chain to " + dump(*e));
            for (const auto& c : ext.get())
                ctx.expect(c.get() != r.get(), "an element of the chain itself is given back");
            // what was merged is independent of the chain
            e.reset();
            ctx.expect(dump(r.get()) == got, "the merged element changed with the end of the chain");
        } catch (const LogicError&) {
            got = "error";
        }
        if (got != want && got == merged(chain, true))
            ctx.finding("F10", "gives " + got + ", expected " + want);
        else
            ctx.expect(got == want, "gives " + got + ", expected " + want);
        ctx.step(chain.size());
        ctx.state(before);
        ctx.outcome(got);
        ctx.trace();
        ctx.sample(before, 1);
    }

    void chains(mc::Ctx& ctx, const std::vector<Val>& space, unsigned max)
    {
        std::uint64_t n = 0;
        for (unsigned len = 0; len <= max; ++len) {
            std::vector<unsigned> at(len, 0);
            for (;;) {
                ++n;
                if (ctx.mine() && !ctx.full()) {
                    std::vector<Val> c;
                    for (auto a : at)
                        c.push_back(space[a]);
                    one(ctx, c, n);
                }
                unsigned i = 0;
                while (i < len && ++at[i] == space.size())
                    at[i++] = 0;
                if (i == len)
                    break;
            }
        }
    }

    std::vector<Val> withInfo(const std::vector<Val>& base)
    {
        const std::vector<Info> metas{ {}, { { "id", str("I") } }, { { "ref", str("A") } }, { { "ref", str("B") }, { "id", str("J") } },
            { { "prefix", str("p") }, { "namespace", str("n") }, { "title", str("t") } }, { { "title", arr({ str("u") }) }, { "ids", str("x") } } };
        const std::vector<Info> attrs{ {}, { { "default", str("d") } }, { { "default", num("1") }, { "id", str("x") } },
            { { "samples", arr({ str("s") }) }, { "enumerations", arr({ str("z") }) } } };
        std::vector<Val> o;
        for (auto& b : base)
            for (auto& m : metas)
                for (auto& a : attrs) {
                    if (b.kind == Enum && a.size() == 2 && a[1].first == "enumerations" && !m.empty())
                        continue;
                    Val v = b;
                    v.meta = m;
                    v.attrs = a;
                    o.push_back(v);
                }
        return o;
    }
}

SCENARIO("kinds", 4)
{
    // chains of every kind with every other
    auto s = leaves();
    s.push_back(arr({ str("x") }));
    s.push_back(obj({ mem("a", str("1")) }));
    s.push_back(str("z").named("Z"));
    s.push_back(ref("b").attr("path", str("element")));
    s.push_back(Val(Extend, std::vector<Val>{ str("a") }));
    s.push_back(Val(Enum, std::vector<Val>()));
    chains(ctx, s, ctx.thorough ? 3 : 2);
}

SCENARIO("info", 8)
{
    chains(ctx, withInfo({ Val(String), str("a"), obj({ mem("a", str("1")) }), Val(Enum), Val(Array) }), 2);
}

SCENARIO("every-key", 8)
{
    // attributes and meta of every name the code knows in either or both, for every kind that can be merged
    for (auto& base : { str("a"), num("1"), boolean(true), arr({ str("x") }), obj({ mem("a", str("1")) }), Val(Enum, std::vector<Val>{ str("e") }), ref("R") })
        for (auto& key : vocabulary())
            for (int meta = 0; meta < 2; ++meta) {
                if (base.kind == Enum && key == "enumerations" && !meta)
                    continue;
                std::vector<Val> s{ base };
                for (auto& x : { str("1"), arr({ num("2") }) }) {
                    s.push_back(meta ? base.metaOf(key, x) : base.attr(key, x));
                    s.push_back(meta ? base.metaOf("other", null()).metaOf(key, x) : base.attr("other", null()).attr(key, x));
                }
                chains(ctx, s, 2);
            }
    // member names
    for (auto& key : vocabulary())
        chains(ctx, { obj({ mem(key, str("1")), mem("z", str("2")) }), obj({ mem("z", str("3")), mem(key, num("4")) }), obj({ ref(key) }) }, 2);
    // sizes
    std::uint64_t n = 1000000;
    std::vector<unsigned> sizes;
    for (unsigned size = 0; size < 40; ++size)
        sizes.push_back(size);
    for (auto size : beyond(513))
        sizes.push_back(size);
    for (auto size : sizes) {
        for (auto k : { Array, Object }) {
            std::vector<Val> c{ wide(k, size), wide(k, size / 2 + 1), wide(k, size + 3) };
            if (ctx.mine() && !ctx.full())
                one(ctx, c, ++n);
            std::vector<Val> longer; // a chain of so many
            for (unsigned i = 0; i <= size; ++i)
                longer.push_back(wide(k, 1 + i % 5).attr("a" + std::to_string(i % 7), num(std::to_string(i))));
            if (ctx.mine() && !ctx.full())
                one(ctx, longer, n += 1000);
        }
        Val e = Val(Enum, std::vector<Val>{ str("v") }).attr("enumerations", wide(Array, size));
        Val f = Val(Enum, std::vector<Val>{ str("w") }).attr("enumerations", wide(Array, size / 2 + 2));
        if (ctx.mine() && !ctx.full())
            one(ctx, { e, f, e }, n += 1000);
    }
}

SCENARIO("info-chains", 8)
{
    chains(ctx, withInfo({ num("1") }), 3);
}

namespace
{
    std::vector<Val> members()
    {
        auto opt = [](std::vector<Val> v) { return Val(Option, std::move(v)); };
        return { mem("a", str("1")), mem(str("a").metaOf("description", str("d")), num("2")).attr("typeAttributes", arr({ str("required") })),
            mem("b", Val(String)), mem("", str("e")), ref("R"), ref("R").attr("resolved", obj()), ref("S"),
            Val(Select, std::vector<Val>{ opt({ mem("a", str("o")) }), opt({ mem("c", str("p")), mem("b", null()) }) }),
            Val(Select, std::vector<Val>{ opt({ ref("R") }), Val(Option) }),
            mem(num("1"), str("n")), mem(Val(Extend, std::vector<Val>{ str("a") }), str("x")), obj({ mem("a", str("1")) }) };
    }
}

SCENARIO("objects", 8)
{
    // every pair of objects of up to two entries each
    std::vector<Val> s{ Val(Object), obj() };
    const auto m = members();
    for (auto& a : m) {
        s.push_back(obj({ a }));
        for (auto& b : m)
            s.push_back(obj({ a, b }));
    }
    chains(ctx, s, 2);
}

SCENARIO("object-chains", 8)
{
    // chains of objects with up to one (thorough: two) entries
    std::vector<Val> s{ Val(Object), obj() };
    const auto m = members();
    for (auto& a : m)
        s.push_back(obj({ a }));
    if (ctx.thorough)
        for (auto& a : { m[0], m[1], m[4], m[7] })
            for (auto& b : { m[2], m[0], m[5] })
                s.push_back(obj({ a, b }));
    chains(ctx, s, 4);
}

SCENARIO("arrays", 4)
{
    std::vector<Val> s{ Val(Array), arr(), arr({ str("a") }), arr({ str("a"), str("b") }), arr({ Val(Number).named("T"), null() }),
        arr({ arr({ str("a") }) }).attr("typeAttributes", arr({ str("fixed") })) };
    chains(ctx, s, ctx.thorough ? 6 : 5);
}

SCENARIO("enums", 8)
{
    const std::vector<Val> words{ str("a"), str("b"), str("a").attr("x", null()), Val(String), num("1") };
    std::vector<std::vector<Val> > lists{ { } };
    for (auto& a : words) {
        lists.push_back({ a });
        for (auto& b : words)
            lists.push_back({ a, b });
    }
    std::vector<Val> s;
    for (auto& v : { Val(Enum), Val(Enum, std::vector<Val>{ str("a") }), Val(Enum, std::vector<Val>{ num("1") }).attr("default", str("d")) }) {
        s.push_back(v);
        for (auto& l : lists)
            s.push_back(v.attr("enumerations", arr(l)));
    }
    chains(ctx, s, 2);
    // three in a row
}

SCENARIO("enum-chains", 8)
{
    std::vector<Val> s{ Val(Enum) };
    for (auto& l : std::vector<std::vector<Val> >{ {}, { str("a") }, { str("b"), str("a") }, { str("c") }, { str("a"), str("c") },
             { str("a"), str("a") }, { num("1"), str("b") } })
        s.push_back(Val(Enum, std::vector<Val>{ str("v") }).attr("enumerations", arr(l)).attr("x", str("y")));
    chains(ctx, s, ctx.thorough ? 6 : 5);
}

MC_MAIN
