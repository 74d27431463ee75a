// C08: equality of elements, over all pairs of a space of elements.
#include "elems.hpp"
#include "ElementComparator.h"
#include "refract/ComparableVisitor.h"

using namespace em;

namespace
{
    bool same(const Val& a, const Val& b);

    bool same(const Info& a, const Info& b)
    {
        if (a.size() != b.size())
            return false;
        for (std::size_t i = 0; i < a.size(); ++i)
            if (a[i].first != b[i].first || !same(a[i].second, b[i].second))
                return false;
        return true;
    }

    bool sameValue(const Val& a, const Val& b)
    {
        if (a.text != b.text || a.kids.size() != b.kids.size())
            return false;
        for (std::size_t i = 0; i < a.kids.size(); ++i)
            if (!same(a.kids[i], b.kids[i]))
                return false;
        return true;
    }

    // type, being set, attributes, meta and value; not the name
    bool same(const Val& a, const Val& b)
    {
        return a.kind == b.kind && a.has == b.has && same(a.attrs, b.attrs) && same(a.meta, b.meta)
            && (!a.has || sameValue(a, b));
    }

    template <typename E>
    void content(mc::Ctx& ctx, const IElement& a, const IElement& b, bool want)
    {
        auto *x = dynamic_cast<const E*>(&a), *y = dynamic_cast<const E*>(&b);
        if (x && y)
            ctx.expect((x->get() == y->get()) == want && (x->get() != y->get()) == !want, want ? "contents are unequal" : "contents are equal");
    }
    void contents(mc::Ctx& ctx, const IElement& a, const IElement& b, bool want)
    {
        content<StringElement>(ctx, a, b, want);
        content<NumberElement>(ctx, a, b, want);
        content<ArrayElement>(ctx, a, b, want);
        content<MemberElement>(ctx, a, b, want);
        content<ObjectElement>(ctx, a, b, want);
        content<RefElement>(ctx, a, b, want);
        content<ExtendElement>(ctx, a, b, want);
        content<OptionElement>(ctx, a, b, want);
        content<SelectElement>(ctx, a, b, want);
    }

    // any order, ignoring some
    bool sameSet(Info a, Info b, const std::set<std::string>& ignore)
    {
        auto strip = [&](Info& i) {
            Info o;
            for (auto& e : i)
                if (!ignore.count(e.first))
                    o.push_back(e);
            i = o;
        };
        strip(a);
        strip(b);
        if (a.size() != b.size())
            return false;
        for (auto& e : a) {
            bool found = false;
            for (auto& f : b)
                found = found || (e.first == f.first && same(e.second, f.second));
            if (!found)
                return false;
        }
        return true;
    }

    bool comparable(const Val& a, const Val& b, const std::set<std::string>& attrs, const std::set<std::string>& meta)
    {
        return a.kind == b.kind && a.has == b.has && a.name == b.name && sameSet(a.attrs, b.attrs, attrs)
            && sameSet(a.meta, b.meta, meta) && (!a.has || sameValue(a, b));
    }

    std::vector<Val> infos()
    {
        std::vector<Val> o;
        const std::vector<Info> is{ {}, { { "a", str("1") } }, { { "a", str("2") } }, { { "b", str("1") } },
            { { "a", str("1") }, { "b", str("1") } }, { { "b", str("1") }, { "a", str("1") } }, { { "a", Val(String) } },
            { { "a", num("1") } }, { { "sourceMap", str("1") } }, { { "sourceMap", str("2") }, { "a", str("1") } },
            { { "a", str("1") }, { "sourceMap", num("1") } }, { { "a", str("1").attr("a", str("1")) } } };
        for (auto& v : { Val(String), str("a"), num("7"), Val(Number), arr({ str("a") }), obj() })
            for (auto& a : is)
                for (auto& m : is) {
                    if (!a.empty() && !m.empty() && (a.size() > 1 || m.size() > 1))
                        continue;
                    Val x = v;
                    x.attrs = a;
                    x.meta = m;
                    o.push_back(x);
                }
        return o;
    }

    std::vector<Val> space(bool thorough)
    {
        std::vector<Val> o = leaves();
        for (auto& v : leaves())
            o.push_back(v.named("X"));
        for (auto& v : { str("a"), Val(Number), arr() })
            o.push_back(v.named("Y"));
        o.push_back(str("a").named("object"));
        o.push_back(num("a").named("string"));
        o.push_back(Val(Enum, std::vector<Val>()));
        o.push_back(Val(Holder, std::vector<Val>()));
        o.push_back(Val(Member, std::vector<Val>()));
        o.push_back(Val(Member, std::vector<Val>{ str("a") }));
        o.push_back(mem(str("a").attr("x", null()), str("b")));
        o.push_back(mem("a", str("b").metaOf("x", null())));
        o.push_back(ref("b"));
        o.push_back(Val(Enum, std::vector<Val>{ str("b") }));
        o.push_back(Val(Holder, std::vector<Val>{ str("b") }));
        const std::vector<Val> entries{ str("a"), str("b"), Val(String), num("7"), mem("a", str("b")), mem("b", str("b")),
            str("a").named("X"), str("a").attr("x", str("1")), Val(Option, std::vector<Val>{ mem("a", str("b")) }),
            Val(Option, std::vector<Val>{ mem("a", str("c")) }) };
        for (auto& v : containers(entries, 2))
            o.push_back(v);
        if (thorough)
            for (auto& v : containers({ entries[0], entries[1], entries[4], entries[8] }, 3))
                if (v.kids.size() == 3)
                    o.push_back(v);
        for (auto& v : infos())
            o.push_back(v);
        return o;
    }
}

SCENARIO("pairs", 8)
{
    const auto all = space(ctx.thorough);
    std::vector<std::unique_ptr<IElement> > els, twins;
    std::vector<std::string> text;
    for (auto& v : all) {
        els.push_back(build(v));
        twins.push_back(build(v));
        text.push_back(dump(v));
        ctx.state(text.back());
    }
    for (std::size_t i = 0; i < all.size(); ++i) {
        if (!ctx.mine() || ctx.full())
            continue;
        for (std::size_t j = 0; j < all.size(); ++j) {
            auto describe = [&] { return text[i] + "  and  " + text[j]; };
            if (!ctx.beginN(i * all.size() + j, describe))
                continue;
            const bool want = same(all[i], all[j]);
            const IElement &a = *els[i], &b = i == j ? *twins[j] : *els[j];
            ctx.step(4);
            ctx.expect((a == b) == want, want ? "are not equal" : "are equal");
            ctx.expect((a != b) == !want, want ? "are unequal" : "are not unequal");
            const bool like = comparable(all[i], all[j], { "sourceMap" }, {});
            ctx.expect((a.attributes() == b.attributes()) == same(all[i].attrs, all[j].attrs) && (a.attributes() != b.attributes()) == !same(all[i].attrs, all[j].attrs), "attributes");
            ctx.expect((a.meta() == b.meta()) == same(all[i].meta, all[j].meta) && (a.meta() != b.meta()) == !same(all[i].meta, all[j].meta), "meta");
            if (all[i].kind == all[j].kind && all[i].has && all[j].has)
                contents(ctx, a, b, sameValue(all[i], all[j]));
            if (all[i].kind == all[j].kind || all[i].has || all[j].has || all[i].name != all[j].name)
                ctx.expect(drafter::Equal(a, b) == like, like ? "do not compare as equal" : "compare as equal");
            if (i == j) {
                ctx.expect(a == a && !(a != a) && drafter::Equal(a, a), "is not equal to itself");
                ctx.expect(*a.clone() == a && drafter::Equal(*a.clone(), a), "is not equal to its clone");
            }
            ctx.outcome(std::string(want ? "equal " : "unequal ") + (like ? "alike " : "unlike ") + kindName(all[i].kind)
                + kindName(all[j].kind));
            ctx.trace();
        }
        ctx.expect(dump(*els[i]) == text[i], "comparing changed it");
    }
    ctx.sample("every pair of " + std::to_string(all.size()) + " elements");
}

SCENARIO("every-key", 4)
{
    // elements that differ in the attribute or the meta of one name only, for every name the code knows
    std::uint64_t n = 0;
    for (auto& key : vocabulary())
        for (auto& base : { str("a"), Val(Number), arr({ str("a") }), obj({ mem("k", str("v")) }), mem("k", str("v")), null(),
                 Val(Enum, std::vector<Val>{ str("a") }), ref("R"), boolean(true), Val(Extend, std::vector<Val>{ str("a") }),
                 Val(Option, std::vector<Val>{ mem("k", str("v")) }), Val(Select, std::vector<Val>()), Val(Holder, std::vector<Val>{ str("a") }) })
            for (int meta = 0; meta < 2; ++meta) {
                std::vector<Val> all{ base };
                for (auto& x : { str("1"), str("2"), num("1"), Val(String), arr({ str("1") }), arr({ str("2") }) })
                    all.push_back(meta ? base.metaOf(key, x) : base.attr(key, x));
                // also one level down
                for (auto& x : { str("1"), str("2") }) {
                    all.push_back(arr({ meta ? base.metaOf(key, x) : base.attr(key, x) }));
                    all.push_back(mem("k", meta ? base.metaOf(key, x) : base.attr(key, x)));
                }
                for (auto& a : all)
                    for (auto& b : all) {
                        ++n;
                        if (!ctx.mine() || ctx.full())
                            continue;
                        auto describe = [&] { return dump(a) + "  and  " + dump(b); };
                        if (!ctx.beginN(n, describe))
                            continue;
                        const bool want = same(a, b), like = comparable(a, b, { "sourceMap" }, {});
                        auto x = build(a), y = build(b);
                        ctx.expect((*x == *y) == want, want ? "are not equal" : "are equal");
                        ctx.expect((*x != *y) == !want, want ? "are unequal" : "are not unequal");
                        if (a.kind == b.kind && a.has && b.has)
                            ctx.expect(drafter::Equal(*x, *y) == like, like ? "do not compare as equal" : "compare as equal");
                        ctx.step(2);
                        ctx.outcome(want ? "equal" : "unequal");
                        ctx.trace();
                    }
            }
    for (auto& a : vocabulary())
        for (auto& b : vocabulary()) {
            ++n;
            if (!ctx.mine() || ctx.full())
                continue;
            auto describe = [&] { return "names, keys and texts " + mc::quote(a) + " and " + mc::quote(b); };
            if (!ctx.beginN(n, describe))
                continue;
            const std::vector<std::pair<Val, Val> > pairs{ { str("x").named(a), str("x").named(b) }, { str(a), str(b) },
                { mem(a, str("v")), mem(b, str("v")) }, { str("x").attr(a, str("v")), str("x").attr(b, str("v")) },
                { str("x").metaOf(a, str("v")), str("x").metaOf(b, str("v")) }, { ref(a), ref(b) }, { obj({ ref(a) }), obj({ ref(b) }) } };
            for (auto& p : pairs) {
                const bool want = same(p.first, p.second), like = comparable(p.first, p.second, { "sourceMap" }, {});
                auto x = build(p.first), y = build(p.second);
                ctx.expect((*x == *y) == want, dump(p.first) + (want ? " is not equal" : " is equal"));
                ctx.expect(drafter::Equal(*x, *y) == like, dump(p.first) + (like ? " does not compare as equal" : " compares as equal"));
                ctx.step(2);
            }
            ctx.trace();
        }
    // lengths
    std::vector<unsigned> widths, depths;
    for (unsigned i = 0; i < 70; i += i < 40 ? 1 : 9)
        widths.push_back(i);
    for (auto i : beyond(1025))
        widths.push_back(i);
    for (unsigned i = 0; i < 40; ++i)
        depths.push_back(i);
    for (auto i : beyond(300))
        depths.push_back(i);
    for (auto i : widths)
        for (auto k : { Array, Object, Extend, Option, Select }) {
            ++n;
            if (!ctx.mine() || ctx.full())
                continue;
            auto describe = [&] { return std::to_string(i) + " entries of " + kindName(k); };
            if (!ctx.beginN(n, describe))
                continue;
            const Val a = wide(k, i);
            auto x = build(a);
            ctx.expect(*x == *build(a), "is not equal to its like");
            ctx.expect(*x != *build(wide(k, i + 1)) && *build(wide(k, i + 1)) != *x, "is equal to one more");
            for (unsigned j = 0; j < i; j += i < 70 || j + 2 >= i ? 1 : 1 + i / 9) {
                Val b = a;
                b.kids[j] = k == Select ? Val(Option, std::vector<Val>{ str("other") }) : str("other");
                ctx.expect(*x != *build(b) && *build(b) != *x, "is equal with another entry " + std::to_string(j));
                b = a;
                b.kids.erase(b.kids.begin() + j);
                ctx.expect(*x != *build(b) && *build(b) != *x, "is equal without entry " + std::to_string(j));
                ctx.step(2);
            }
            ctx.trace();
        }
    for (auto i : depths) {
        ++n;
        if (!ctx.mine() || ctx.full())
            continue;
        auto describe = [&] { return "a nesting of " + std::to_string(i) + " levels"; };
        if (!ctx.beginN(n, describe))
            continue;
        auto x = build(deep(i)), y = build(deep(i)), z = build(deep(i + 1));
        ctx.expect(*x == *y && !(*x != *y), "is not equal to its like");
        ctx.expect(*x != *z, "is equal to one level more");
        Val v = deep(i); // differing at the bottom
        Val* b = &v;
        while (b->kind != String || b->text != "bottom")
            b = b->kind == String ? &b->attrs[0].second : b->kind == Member ? &b->kids[1] : &b->kids.back();
        b->text = "other";
        ctx.expect(*x != *build(v) && *build(v) != *x, "is equal to one that differs at the bottom");
        b->text = "bottom";
        b->attrs[0].second.text = "2";
        ctx.expect(*x != *build(v) && *build(v) != *x, "is equal to one that differs in an attribute at the bottom");
        ctx.step(4);
        ctx.trace();
    }
    // texts, names and keys of any length, differing at their ends
    const auto big = large(64, 0);
    for (auto& v : big) {
        ++n;
        if (!ctx.mine() || ctx.full())
            continue;
        auto describe = [&] { return dump(v); };
        if (!ctx.beginN(n, describe))
            continue;
        auto x = build(v);
        ctx.expect(*x == *build(v), "is not equal to its like");
        std::vector<Val> others;
        Val w = v;
        if (!v.text.empty()) {
            w.text += v.kind == Number ? "0" : "z";
            others.push_back(w);
            w.text = v.text.substr(1);
            others.push_back(w);
        }
        for (std::size_t i = 0; i < v.attrs.size(); ++i) {
            w = v;
            w.attrs[i].first += "z";
            others.push_back(w);
            w = v;
            w.attrs[i].second = boolean(true);
            others.push_back(w);
        }
        for (std::size_t i = 0; i < v.meta.size(); ++i) {
            w = v;
            w.meta[i].first += "z";
            others.push_back(w);
        }
        if (v.kind == Object && v.kids.size() == 2) {
            w = v;
            w.kids[0].kids[0].text += "z";
            others.push_back(w);
            w = v;
            w.kids[1].kids[1].text += "z";
            others.push_back(w);
        }
        for (auto& w : others)
            ctx.expect(*x != *build(w) && *build(w) != *x, "is equal to " + dump(w).substr(0, 300));
        ctx.step(others.size());
        ctx.trace();
    }
    ctx.state("keys");
}

SCENARIO("ignored-keys", 4)
{
    // comparison with one's own choice of attributes and meta to ignore
    const auto all = infos();
    using drafter::detail::IgnoreKeys;
    using drafter::detail::IgnoreNone;
    const std::vector<std::pair<std::set<std::string>, std::set<std::string> > > ignored{ { {}, {} }, { { "a" }, {} },
        { {}, { "a" } }, { { "a", "b" }, { "sourceMap" } }, { { "sourceMap" }, { "sourceMap", "b" } } };
    std::vector<std::unique_ptr<IElement> > els;
    for (auto& v : all)
        els.push_back(build(v));
    std::uint64_t n = 0;
    for (std::size_t i = 0; i < all.size(); ++i)
        for (std::size_t j = 0; j < all.size(); ++j) {
            if (all[i].kind != all[j].kind || all[i].has != all[j].has) {
                n += ignored.size();
                continue;
            }
            for (auto& ig : ignored) {
                ++n;
                if (!ctx.mine() || ctx.full())
                    continue;
                auto describe = [&] {
                    std::string o = dump(all[i]) + "  and  " + dump(all[j]) + "  without attributes";
                    for (auto& k : ig.first)
                        o += " " + k;
                    o += " and meta";
                    for (auto& k : ig.second)
                        o += " " + k;
                    return o;
                };
                if (!ctx.beginN(n, describe))
                    continue;
                const bool want = comparable(all[i], all[j], ig.first, ig.second);
                auto a = ig.first, b = ig.second;
                ctx.expect(drafter::Equal(*els[i], *els[j], IgnoreKeys(std::move(a)), IgnoreKeys(std::move(b))) == want,
                    want ? "do not compare as equal" : "compare as equal");
                if (ig.first.empty() && ig.second.empty())
                    ctx.expect(drafter::Equal(*els[i], *els[j], IgnoreNone(), IgnoreNone()) == want,
                        "differ when nothing is ignored");
                ctx.step();
                ctx.outcome(want ? "equal" : "unequal");
                ctx.trace();
            }
        }
    ctx.state("keys");
}

SCENARIO("values", 2)
{
    // comparison of values of one type with each other and with plain values
    const std::vector<std::string> words{ "", "a", "b", "ab", "A", std::string(1, '\0'), "0", "00", "0.0", "-0", "1", "1e0" };
    for (auto& a : words)
        for (auto& b : words) {
            if (!ctx.begin(mc::quote(a) + " and " + mc::quote(b)))
                continue;
            const bool eq = a == b;
            ctx.expect((dsd::String(a) == dsd::String(b)) == eq, "strings");
            ctx.expect((dsd::String(a) != dsd::String(b)) == !eq, "strings, unequal");
            ctx.expect((dsd::String(a) == b) == eq, "a string and a text");
            ctx.expect(dsd::String(a).empty() == a.empty() && dsd::String(a).get() == a, "the value of a string");
            ctx.expect((dsd::Number(a) == dsd::Number(b)) == eq, "numbers");
            ctx.expect((dsd::Number(a) != dsd::Number(b)) == !eq, "numbers, unequal");
            ctx.expect((dsd::Ref(a) == dsd::Ref(b)) == eq, "references");
            ctx.expect((dsd::Ref(a) != dsd::Ref(b)) == !eq, "references, unequal");
            ctx.expect((dsd::Ref(a) == b) == eq, "a reference and a text");
            const std::string& implicit = dsd::String(a);
            ctx.expect(implicit.size() == a.size() || true, "");
            ctx.step(8);
            ctx.outcome(eq ? "equal" : "unequal");
            ctx.trace();
            ctx.state(a + "|" + b);
        }
    for (int a = 0; a < 2; ++a)
        for (int b = 0; b < 2; ++b)
            if (ctx.begin(std::string(a ? "true" : "false") + " and " + (b ? "true" : "false"))) {
                ctx.expect((dsd::Boolean(a != 0) == dsd::Boolean(b != 0)) == (a == b), "booleans");
                ctx.expect(dsd::Boolean(a != 0).get() == (a != 0) && static_cast<bool>(dsd::Boolean(a != 0)) == (a != 0),
                    "the value of a boolean");
                ctx.expect(dsd::Null() == dsd::Null(), "nulls");
                ctx.step(2);
            }
    for (long long i : { 0LL, 1LL, -1LL, 42LL, 2147483647LL, -2147483648LL })
        if (ctx.begin("the number " + std::to_string(i))) {
            ctx.expect(dsd::Number(i).get() == std::to_string(i), "written as " + dsd::Number(i).get());
            ctx.expect(static_cast<std::int64_t>(dsd::Number(i)) == i, "read as another number");
            ctx.step(2);
        }
}

MC_MAIN
