// C22: generic values: equality, lookup, adding what is not there yet.
#include "mc.hpp"
#include "jv.hpp"
#include "utils/so/Value.h"

using jv::J;
using namespace drafter::utils;

namespace
{
    so::Value make(const J& j)
    {
        switch (j.kind) {
            case jv::Null:
                return so::Null{};
            case jv::True:
                return so::True{};
            case jv::False:
                return so::False{};
            case jv::String:
                return so::String{ j.text };
            case jv::Number:
                return so::Number{ j.text };
            case jv::Object: {
                so::Object o;
                for (auto& m : j.members)
                    o.data.emplace_back(m.first, make(m.second));
                return o;
            }
            default: {
                so::Array a;
                for (auto& i : j.items)
                    a.data.emplace_back(make(i));
                return a;
            }
        }
    }

    J value(const so::Value& v)
    {
        struct Visitor {
            J operator()(const so::Null&) const { return J(jv::Null); }
            J operator()(const so::True&) const { return J(jv::True); }
            J operator()(const so::False&) const { return J(jv::False); }
            J operator()(const so::String& s) const { return jv::str(s.data); }
            J operator()(const so::Number& n) const { return jv::num(n.data); }
            J operator()(const so::Object& o) const
            {
                J j(jv::Object);
                for (auto& m : o.data)
                    j.members.emplace_back(m.first, value(m.second));
                return j;
            }
            J operator()(const so::Array& a) const
            {
                J j(jv::Array);
                for (auto& i : a.data)
                    j.items.push_back(value(i));
                return j;
            }
        };
        return mpark::visit(Visitor{}, v);
    }

    // objects are equal whatever the order of their members
    bool same(const J& a, const J& b)
    {
        if (a.kind != b.kind || a.text != b.text || a.items.size() != b.items.size() || a.members.size() != b.members.size())
            return false;
        for (std::size_t i = 0; i < a.items.size(); ++i)
            if (!same(a.items[i], b.items[i]))
                return false;
        for (auto& m : a.members)
            if (!b.get(m.first) || !same(m.second, *b.get(m.first)))
                return false;
        return true;
    }

    std::vector<J> leaves()
    {
        return { J(jv::Null), J(jv::True), J(jv::False), jv::str(""), jv::str("a"), jv::str("1"), jv::num("1"), jv::num("1.0"), jv::num("0"), J(jv::Object), J(jv::Array) };
    }

    std::vector<J> space(bool thorough)
    {
        std::vector<J> o = leaves();
        const auto l = leaves();
        std::vector<J> inner = l;
        for (auto& a : l) {
            o.push_back(jv::arr({ a }));
            o.push_back(jv::obj({ { "k", a } }));
            o.push_back(jv::obj({ { "l", a } }));
            for (auto& b : l) {
                o.push_back(jv::arr({ a, b }));
                o.push_back(jv::obj({ { "k", a }, { "l", b } }));
                o.push_back(jv::obj({ { "l", b }, { "k", a } }));
            }
        }
        const std::vector<J> few{ J(jv::Null), jv::str("a"), jv::num("1"), jv::arr({ jv::str("a") }), jv::obj({ { "k", jv::num("1") }, { "l", J(jv::True) } }),
            jv::obj({ { "l", J(jv::True) }, { "k", jv::num("1") } }), jv::obj({ { "k", jv::num("1") } }) };
        for (auto& a : few)
            for (auto& b : few) {
                o.push_back(jv::arr({ a, b, a }));
                o.push_back(jv::arr({ jv::arr({ a }), b }));
                o.push_back(jv::obj({ { "x", a }, { "y", jv::obj({ { "z", b } }) } }));
                o.push_back(jv::obj({ { "y", jv::obj({ { "z", b } }) }, { "x", a } }));
                if (thorough)
                    for (auto& c : few) {
                        o.push_back(jv::obj({ { "x", a }, { "y", b }, { "z", c } }));
                        o.push_back(jv::obj({ { "z", c }, { "x", a }, { "y", b } }));
                        o.push_back(jv::arr({ a, b, c }));
                    }
            }
        return o;
    }
}

SCENARIO("equality", 8)
{
    const auto s = space(ctx.thorough);
    std::vector<so::Value> v;
    for (auto& j : s)
        v.push_back(make(j));
    std::uint64_t n = 0;
    for (std::size_t a = 0; a < s.size(); ++a) {
        if (!ctx.mine() || ctx.full()) {
            n += s.size();
            continue;
        }
        for (std::size_t b = 0; b < s.size(); ++b) {
            ++n;
            auto describe = [&] { return jv::show(s[a]) + " and " + jv::show(s[b]); };
            if (!ctx.beginN(n, describe))
                continue;
            const bool want = same(s[a], s[b]);
            ctx.expect((v[a] == v[b]) == want, want ? "differ" : "are equal");
            if (b == a) {
                so::Value copy = v[a], moved = std::move(copy), assigned;
                assigned = moved;
                ctx.expect(moved == v[a] && assigned == v[a], "a copy differs");
                ctx.expect(jv::show(value(assigned)) == jv::show(s[a]), "a copy has other content");
            }
            ctx.step();
            ctx.outcome(want ? "equal" : "different");
            ctx.trace();
        }
        ctx.state(jv::show(s[a]));
    }
}

SCENARIO("objects", 8)
{
    // every history of setting members of an object, each step followed by looking up every key
    const std::vector<J> values{ jv::str("a"), jv::num("1"), jv::obj({ { "k", J(jv::Null) } }) };
    const std::vector<std::string> keys{ "k", "l", "", "K" };
    const unsigned depth = ctx.thorough ? 5 : 4;
    const unsigned ops = static_cast<unsigned>(values.size() * keys.size() * 2);
    std::uint64_t n = 0;
    for (unsigned len = 0; len <= depth; ++len) {
        std::vector<unsigned> at(len, 0);
        for (;;) {
            ++n;
            if (ctx.mine() && !ctx.full()) {
                auto describe = [&] {
                    std::string s = "set";
                    for (auto i : at)
                        s += " " + keys[i / 2 % keys.size()] + (i % 2 ? "=" : ":") + jv::show(values[i / 2 / keys.size()]);
                    return s;
                };
                if (ctx.beginN(n, describe)) {
                    so::Object o;
                    J want(jv::Object);
                    for (auto i : at) {
                        const std::string& k = keys[i / 2 % keys.size()];
                        const J& v = values[i / 2 / keys.size()];
                        bool there = false;
                        for (auto& m : want.members)
                            if (m.first == k) {
                                m.second = v;
                                there = true;
                            }
                        if (!there)
                            want.members.emplace_back(k, v);
                        if (i % 2)
                            so::emplace_unique(o, k, make(v));
                        else
                            so::emplace_unique(o, so::Object::container_type::value_type(k, make(v)));
                        ctx.step();
                    }
                    const J got = value(o);
                    ctx.expect(got == want, "has " + jv::show(got));
                    for (auto& k : keys) {
                        const J* w = want.get(k);
                        so::Value* f = so::find(o, k);
                        if (ctx.expect((w != nullptr) == (f != nullptr), "whether it finds " + k) && f)
                            ctx.expect(value(*f) == *w, "finds another value under " + k);
                    }
                    ctx.state(jv::show(want));
                    ctx.trace();
                }
            }
            unsigned i = 0;
            while (i < len && ++at[i] == ops)
                at[i++] = 0;
            if (i == len)
                break;
        }
    }
}

SCENARIO("arrays", 4)
{
    const std::vector<J> values{ jv::str("a"), jv::str("1"), jv::num("1"), J(jv::Null), jv::obj({ { "k", jv::num("1") }, { "l", J(jv::True) } }),
        jv::obj({ { "l", J(jv::True) }, { "k", jv::num("1") } }), jv::arr({ jv::str("a") }), jv::arr({}) };
    const unsigned depth = ctx.thorough ? 6 : 5;
    std::uint64_t n = 0;
    for (unsigned len = 0; len <= depth; ++len) {
        std::vector<unsigned> at(len, 0);
        for (;;) {
            ++n;
            if (ctx.mine() && !ctx.full()) {
                auto describe = [&] {
                    std::string s = "add";
                    for (auto i : at)
                        s += " " + jv::show(values[i]);
                    return s;
                };
                if (ctx.beginN(n, describe)) {
                    so::Array a;
                    J want(jv::Array);
                    for (auto i : at) {
                        bool there = false;
                        for (auto& x : want.items)
                            there = there || same(x, values[i]);
                        if (!there)
                            want.items.push_back(values[i]);
                        so::emplace_unique(a, make(values[i]));
                        ctx.step();
                    }
                    const J got = value(a);
                    ctx.expect(got == want, "has " + jv::show(got));
                    ctx.state(jv::show(want));
                    ctx.trace();
                }
            }
            unsigned i = 0;
            while (i < len && ++at[i] == values.size())
                at[i++] = 0;
            if (i == len)
                break;
        }
    }
}

SCENARIO("sizes", 2)
{
    // arrays and objects of any size, strings and keys of any length
    for (unsigned n : { 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1024, 1025 }) {
        if (!ctx.mine() || ctx.full() || !ctx.begin(std::to_string(n)))
            continue;
        so::Array a;
        so::Object o;
        J wantA(jv::Array), wantO(jv::Object);
        auto text = [](unsigned i) { return "k" + std::to_string(i); };
        for (unsigned i = 0; i < n; ++i) {
            so::emplace_unique(a, so::Value(so::String{ text(i) }));
            so::emplace_unique(a, so::Value(so::String{ text(i / 2) }));
            so::emplace_unique(o, text(i), so::Value(so::Number{ static_cast<int>(i) }));
            wantA.items.push_back(jv::str(text(i)));
            wantO.members.emplace_back(text(i), jv::num(std::to_string(i)));
        }
        ctx.expect(value(a) == wantA, "an array is " + jv::show(value(a)).substr(0, 200));
        ctx.expect(value(o) == wantO, "an object is " + jv::show(value(o)).substr(0, 200));
        so::Object turned;
        for (unsigned i = n; i-- > 0;)
            turned.data.emplace_back(text(i), so::Value(so::Number{ static_cast<int>(i) }));
        ctx.expect(so::Value(o) == so::Value(turned), "is another in another order");
        for (unsigned i = 0; i < n; i += i < 3 || i + 4 > n ? 1 : n / 7 + 1) {
            ctx.expect(so::find(o, text(i)) == &o.data[i].second, text(i) + " is not found, or elsewhere");
            so::Object p = o;
            p.data[i].second = so::Value(so::True{});
            ctx.expect(!(so::Value(o) == so::Value(p)) && !(so::Value(p) == so::Value(o)), "is equal to one with another value of " + text(i));
            p.data.erase(p.data.begin() + i);
            ctx.expect(!(so::Value(o) == so::Value(p)) && !(so::Value(p) == so::Value(o)), "is equal to one without " + text(i));
            so::Array b = a;
            b.data[i] = so::Value(so::Null{});
            ctx.expect(!(so::Value(a) == so::Value(b)), "is equal to one with another item " + text(i));
            b.data.erase(b.data.begin() + i);
            ctx.expect(!(so::Value(a) == so::Value(b)) && !(so::Value(b) == so::Value(a)), "is equal to one without item " + text(i));
            ctx.step(6);
        }
        const std::string l(n, 'l');
        ctx.expect(so::Value(so::String{ l }) == so::Value(so::String{ l }) && !(so::Value(so::String{ l }) == so::Value(so::String{ l + "l" }))
                && !(so::Value(so::String{ l + "a" }) == so::Value(so::String{ l + "b" })), "strings are compared otherwise");
        so::Object k;
        so::emplace_unique(k, l + "a", so::Value(so::True{}));
        so::emplace_unique(k, l + "b", so::Value(so::False{}));
        ctx.expect(k.data.size() == 2 && so::find(k, l + "b") == &k.data[1].second && !so::find(k, l), "keys are compared otherwise");
        ctx.state(std::to_string(n));
        ctx.trace();
    }
}

SCENARIO("made", 1)
{
    if (ctx.begin("from a list")) {
        so::Object o(so::from_list{}, std::make_pair(std::string("k"), so::Value(so::String{ "v" })), std::make_pair(std::string("l"), so::Value(so::Null{})));
        so::Array a(so::from_list{}, so::Value(so::True{}), so::Value(so::Number{ 7 }));
        ctx.expect(jv::show(value(o)) == "{\"k\":\"v\",\"l\":null}", "object is " + jv::show(value(o)));
        ctx.expect(jv::show(value(a)) == "[true,7]", "array is " + jv::show(value(a)));
        ctx.expect(jv::show(value(so::Number{})) == "0" && jv::show(value(so::String{})) == "\"\"", "defaults");
        ctx.expect(jv::show(value(so::Number{ -9223372036854775807LL - 1 })) == "-9223372036854775808", "smallest integer");
        ctx.expect(jv::show(value(so::Number{ 18446744073709551615ULL })) == "18446744073709551615", "biggest integer");
    }
}

MC_MAIN
