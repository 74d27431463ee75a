// C16: how many values a type allows.
#include "elems.hpp"
#include "refract/Cardinal.h"
#include "refract/ElementSize.h"
#include "refract/ElementUtils.h"

using namespace em;

namespace
{
    // Sizes without a limit: what is too big to count is open, like what has no bound
    struct Big {
        bool inf;
        unsigned __int128 n;
    };
    const unsigned __int128 TOP = static_cast<unsigned __int128>(1) << 100;

    Big fin(unsigned __int128 n)
    {
        return n >= TOP ? Big{ false, TOP } : Big{ false, n };
    }
    const Big INF{ true, 0 };

    Big add(Big a, Big b)
    {
        return a.inf || b.inf ? INF : fin(a.n + b.n);
    }
    Big mul(Big a, Big b)
    {
        if ((!a.inf && a.n == 0) || (!b.inf && b.n == 0))
            return fin(0);
        if (a.inf || b.inf)
            return INF;
        return a.n > TOP / b.n ? fin(TOP) : fin(a.n * b.n);
    }
    unsigned limited(Big b)
    {
        return b.inf || b.n >= 0xffffffffu ? 0xffffffffu : static_cast<unsigned>(b.n);
    }
    std::string show(unsigned n)
    {
        return n == 0xffffffffu ? "open" : std::to_string(n);
    }

    const Val* at(const Info& i, const std::string& k)
    {
        for (auto& e : i)
            if (e.first == k)
                return &e.second;
        return nullptr;
    }
    bool typeAttr(const Val& v, const std::string& a)
    {
        auto t = at(v.attrs, "typeAttributes");
        if (t && t->kind == Array)
            for (auto& x : t->kids)
                if (x.kind == String && x.has && x.text == a)
                    return true;
        return false;
    }
    bool defines(const Val& v)
    {
        auto s = at(v.attrs, "samples");
        return v.has || (s && s->kind == Array && !s->kids.empty()) || at(v.attrs, "default");
    }

    Big size(const Val& v, bool fixed)
    {
        const bool self = typeAttr(v, "fixed");
        const bool type = typeAttr(v, "fixedType");
        auto nullable = [&](Big b) { return typeAttr(v, "nullable") ? add(b, fin(1)) : b; };
        auto product = [&](bool f) {
            Big b = fin(1);
            for (auto& k : v.kids)
                b = mul(b, size(k, f));
            return b;
        };
        auto sum = [&](const std::vector<Val>& kids, bool f) {
            Big b = fin(0);
            for (auto& k : kids)
                b = add(b, size(k, f));
            return b;
        };
        switch (v.kind) {
            case Null:
                return fin(1);
            case String:
            case Number:
                return nullable((fixed && defines(v)) || self ? fin(1) : INF);
            case Boolean:
                return nullable((fixed && defines(v)) || self ? fin(1) : fin(2));
            case Object:
                return nullable(fixed || self || type ? product(fixed || self) : INF);
            case Array:
                if (fixed || self)
                    return nullable(product(true));
                return nullable(type && !v.has ? fin(0) : INF);
            case Enum: {
                auto e = at(v.attrs, "enumerations");
                if (!e || e->kind != Array || !e->has)
                    return fin(0);
                return nullable(sum(e->kids, fixed || self));
            }
            case Member: {
                if (!v.has || v.kids.size() < 2)
                    return fin(0);
                auto x = at(v.attrs, "variable");
                return nullable(mul(x && x->kind == Boolean && x->text == "true" ? INF : fin(1), size(v.kids[1], fixed)));
            }
            case Option:
                return v.has ? product(fixed) : fin(0);
            case Select:
                return v.has ? sum(v.kids, fixed) : fin(0);
            case Holder:
                return v.has && !v.kids.empty() ? size(v.kids[0], fixed) : fin(0);
            case Extend:
                return v.has && !v.kids.empty() ? size(v.kids[0], fixed) : fin(0);
            case Ref:
                return size(*at(v.attrs, "resolved"), fixed);
            default:
                return fin(0);
        }
    }

    void one(mc::Ctx& ctx, const Val& v, std::uint64_t n)
    {
        auto describe = [&] { return dump(v); };
        if (!ctx.beginN(n, describe))
            return;
        auto e = build(v);
        for (int fixed = 0; fixed < 2; ++fixed) {
            const unsigned want = limited(size(v, fixed));
            const cardinal got = sizeOf(*e, fixed);
            ctx.expect(got.data() == want,
                "allows " + show(got.data()) + " values, expected " + show(want) + (fixed ? " (in a fixed parent)" : ""));
            ctx.expect(finite(got) == (want != 0xffffffffu), "finite() does not say so");
            if (!fixed)
                ctx.expect(sizeOf(*e) == got, "not fixed is not what is assumed");
            ctx.step();
            ctx.outcome(show(want));
        }
        ctx.expect(dump(*e) == dump(v), "counting changed the type");
        ctx.state(dump(v));
        ctx.trace();
    }

    std::vector<Val> leavesOf()
    {
        std::vector<Val> o;
        for (auto& base : { Val(String), str("s"), Val(Number), num("1"), Val(Boolean), boolean(true), boolean(false), null(), Val(Null) }) {
            for (auto& t : { typed({}), typed({ "fixed" }), typed({ "nullable" }), typed({ "fixedType" }), typed({ "required", "nullable", "fixed" }) }) {
                Val v = base;
                if (!t.kids.empty())
                    v = v.attr("typeAttributes", t);
                o.push_back(v);
                o.push_back(v.attr("samples", arr({ base })));
                o.push_back(v.attr("default", base));
            }
            o.push_back(base.attr("samples", arr()));
            o.push_back(base.attr("samples", Val(Array)));
            o.push_back(base.attr("typeAttributes", arr({ str("Fixed"), num("1"), Val(String), str("nullable ") })));
        }
        return o;
    }

    // what stands for the leaves inside of bigger types: one of each size and sensitivity
    std::vector<Val> few()
    {
        return { Val(String), str("s"), Val(Boolean), boolean(true), null(), num("1").attr("typeAttributes", typed({ "fixed" })),
            Val(Boolean).attr("typeAttributes", typed({ "nullable" })), Val(Enum),
            Val(Enum).attr("enumerations", arr({ str("a"), str("b"), Val(Boolean) })), Val(Number).attr("default", num("2")) };
    }

    std::vector<Val> inside(const std::vector<Val>& kids, bool pairs)
    {
        std::vector<std::vector<Val> > lists{ {} };
        for (auto& a : kids) {
            lists.push_back({ a });
            if (pairs)
                for (auto& b : kids)
                    lists.push_back({ a, b });
        }
        std::vector<Val> o;
        for (auto& l : lists) {
            std::vector<Val> members, variable, options;
            for (auto& k : l) {
                members.push_back(mem("k" + std::to_string(members.size()), k));
                variable.push_back(mem("v" + std::to_string(variable.size()), k).attr("variable", boolean(true)));
                options.push_back(Val(Option, std::vector<Val>{ mem("o", k) }));
            }
            for (auto& t : { typed({}), typed({ "fixed" }), typed({ "fixedType" }), typed({ "nullable" }), typed({ "fixedType", "nullable" }) }) {
                auto tell = [&](const Val& v) { o.push_back(t.kids.empty() ? v : v.attr("typeAttributes", t)); };
                tell(arr(l));
                tell(obj(members));
                tell(Val(Enum).attr("enumerations", arr(l)));
                if (!l.empty()) {
                    tell(obj({ variable[0] }));
                    tell(mem("m", l[0]));
                    tell(mem("m", l[0]).attr("variable", boolean(false)));
                    tell(mem("m", l[0]).attr("variable", str("true")));
                }
                tell(obj({ Val(Select, options) }));
                std::vector<Val> mixed = members;
                mixed.insert(mixed.begin(), Val(Select, options));
                tell(obj(mixed));
                if (l.empty()) {
                    tell(Val(Array));
                    tell(Val(Object));
                    tell(Val(Enum));
                    tell(Val(Enum).attr("enumerations", Val(Array)));
                    tell(Val(Enum).attr("enumerations", str("x")));
                    tell(Val(Enum, std::vector<Val>{ str("x") }).attr("enumerations", arr({ str("x"), str("y"), num("1") })));
                }
            }
            o.push_back(Val(Option, members));
            o.push_back(Val(Select, options));
            if (l.size() == 1) {
                o.push_back(Val(Holder, l));
                o.push_back(Val(Extend, l));
                o.push_back(ref("R").attr("resolved", l[0]));
            }
        }
        for (auto k : { Option, Select, Holder, Extend, Member })
            o.push_back(Val(k));
        return o;
    }

    void all(mc::Ctx& ctx, const std::vector<Val>& space)
    {
        std::uint64_t n = 0;
        for (auto& v : space) {
            ++n;
            if (ctx.mine() && !ctx.full())
                one(ctx, v, n);
        }
    }
}

SCENARIO("arithmetic", 4)
{
    // sums and products of every pair of sizes around every power of two, and of all small ones
    std::vector<unsigned> s;
    for (unsigned i = 0; i < (ctx.thorough ? 1200u : 300u); ++i)
        s.push_back(i);
    for (unsigned b = 8; b < 32; ++b)
        for (int d = -2; d <= 2; ++d)
            s.push_back((1u << b) + d);
    for (unsigned d = 0; d < 5; ++d)
        s.push_back(0xffffffffu - d);
    s.push_back(0x55555555u);
    s.push_back(0x55555556u);
    s.push_back(65537u * 3);
    std::uint64_t n = 0;
    for (auto a : s)
        for (auto b : s) {
            ++n;
            if (!ctx.mine() || ctx.full())
                continue;
            auto describe = [&] { return show(a) + " and " + show(b); };
            if (!ctx.beginN(n, describe))
                continue;
            const Big A = a == 0xffffffffu ? INF : fin(a), B = b == 0xffffffffu ? INF : fin(b);
            const cardinal x(a), y(b);
            ctx.expect((x + y).data() == limited(add(A, B)), "sum is " + show((x + y).data()) + ", expected " + show(limited(add(A, B))));
            ctx.expect((x * y).data() == limited(mul(A, B)), "product is " + show((x * y).data()) + ", expected " + show(limited(mul(A, B))));
            ctx.expect((x == y) == (a == b) && (x != y) == (a != b), "comparison is wrong");
            ctx.expect(finite(x) == (a != 0xffffffffu), "finite is wrong");
            ctx.step(5);
            ctx.state(describe());
            ctx.outcome(show((x + y).data()) + show((x * y).data()));
            ctx.trace();
        }
    if (ctx.mine() && ctx.begin("constants")) {
        ctx.expect(cardinal::empty().data() == 0 && cardinal().data() == 0, "the empty size is not 0");
        ctx.expect(!finite(cardinal::open()) && finite(cardinal::empty()), "open and empty");
        ctx.trace();
    }
}

SCENARIO("leaves", 1)
{
    all(ctx, leavesOf());
}

SCENARIO("types", 8)
{
    auto s = leavesOf();
    auto big = inside(s, false);
    all(ctx, big);
    all(ctx, inside(few(), true));
}

SCENARIO("nested", 8)
{
    auto inner = inside(few(), false);
    std::vector<Val> values;
    for (auto& v : inner)
        if (v.kind != Option && v.kind != Select && v.kind != Member)
            values.push_back(v);
    if (!ctx.thorough) {
        std::vector<Val> some;
        for (std::size_t i = 0; i < values.size(); i += 3)
            some.push_back(values[i]);
        values.swap(some);
    }
    all(ctx, inside(values, false));
    all(ctx, inside(inside(few(), false), false));
}

SCENARIO("big", 2)
{
    // more values than can be counted
    std::vector<Val> s;
    std::vector<unsigned> sizes;
    for (unsigned n = 0; n <= 70; ++n)
        sizes.push_back(n);
    for (auto n : beyond(1025))
        sizes.push_back(n);
    for (auto n : sizes) {
        std::vector<Val> booleans, pairs;
        for (unsigned i = 0; i < n; ++i) {
            booleans.push_back(mem("b" + std::to_string(i), Val(Boolean)));
            pairs.push_back(mem("p" + std::to_string(i), Val(Enum).attr("enumerations", arr({ str("x"), str("y"), str("z") }))));
        }
        std::vector<Val> words; // as many choices
        for (unsigned i = 0; i < n; ++i)
            words.push_back(str("w" + std::to_string(i)));
        s.push_back(Val(Enum).attr("enumerations", arr(words)));
        s.push_back(Val(Enum).attr("enumerations", arr(words)).attr("typeAttributes", typed({ "nullable" })));
        s.push_back(obj({ mem("w", Val(Enum).attr("enumerations", arr(words))), mem("b", Val(Boolean)) }).attr("typeAttributes", typed({ "fixed" })));
        s.push_back(arr(words).attr("typeAttributes", typed({ "fixed" })));
        s.push_back(arr(words).attr("typeAttributes", typed({ "fixedType" })));
        for (auto& m : { booleans, pairs }) {
            const Val o = obj(m).attr("typeAttributes", typed({ "fixed" }));
            s.push_back(o);
            s.push_back(obj(m).attr("typeAttributes", typed({ "fixedType", "nullable" })));
            s.push_back(Val(Option, m));
            s.push_back(Val(Enum).attr("enumerations", arr({ o, o, Val(Boolean) })));
            s.push_back(obj({ mem("x", o), mem("y", o) }).attr("typeAttributes", typed({ "fixed" })));
        }
    }
    all(ctx, s);
}

MC_MAIN
