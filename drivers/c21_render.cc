// C21: the generic value an element is rendered as, with and without source maps, and its JSON and YAML.
#include "elems.hpp"
#include "jv.hpp"
#include "refract/SerializeSo.h"
#include "utils/so/JsonIo.h"
#include "utils/so/YamlIo.h"

using namespace em;
using jv::J;
namespace so = drafter::utils::so;

namespace
{
    J rendered(const Val& v, bool maps);

    J rendered(const Info& info, bool maps)
    {
        J o(jv::Object);
        for (auto& e : info)
            if (maps || e.first != "sourceMap")
                o.members.emplace_back(e.first, rendered(e.second, maps));
        return o;
    }

    J rendered(const Val& v, bool maps)
    {
        J o(jv::Object);
        o.members.emplace_back("element", jv::str(v.name));
        J meta = rendered(v.meta, maps);
        if (!meta.members.empty())
            o.members.emplace_back("meta", meta);
        // annotations keep theirs: they say where in the source the trouble is
        J attrs = rendered(v.attrs, maps || v.name == "annotation");
        if (!attrs.members.empty())
            o.members.emplace_back("attributes", attrs);
        if (!v.has)
            return o;
        J c;
        switch (v.kind) {
            case Null:
                break;
            case String:
            case Ref:
                c = jv::str(v.text);
                break;
            case Number:
                c = jv::num(v.text);
                break;
            case Boolean:
                c = J(v.text == "true" ? jv::True : jv::False);
                break;
            case Enum:
            case Holder:
                c = rendered(v.kids[0], maps);
                break;
            case Member:
                c = jv::obj({ { "key", rendered(v.kids[0], maps) } });
                if (v.kids.size() > 1)
                    c.members.emplace_back("value", rendered(v.kids[1], maps));
                break;
            default:
                c = J(jv::Array);
                for (auto& k : v.kids)
                    c.items.push_back(rendered(k, maps));
        }
        o.members.emplace_back("content", c);
        return o;
    }

    bool complete(const Val& v)
    {
        for (auto i : { &v.attrs, &v.meta })
            for (auto& e : *i)
                if (!complete(e.second))
                    return false;
        for (auto& k : v.kids)
            if (!complete(k))
                return false;
        return !v.has || !v.kids.empty() || (v.kind != Member && v.kind != Enum && v.kind != Holder);
    }

    J value(const so::Value& v)
    {
        struct Visitor {
            J operator()(const so::Null&) const
            {
                return J(jv::Null);
            }
            J operator()(const so::True&) const
            {
                return J(jv::True);
            }
            J operator()(const so::False&) const
            {
                return J(jv::False);
            }
            J operator()(const so::String& s) const
            {
                return jv::str(s.data);
            }
            J operator()(const so::Number& n) const
            {
                return jv::num(n.data);
            }
            J operator()(const so::Object& o) const
            {
                J j(jv::Object);
                for (auto& m : o.data)
                    j.members.emplace_back(m.first, value(m.second));
                return j;
            }
            J operator()(const so::Array& a) const
            {
                J j(jv::Array);
                for (auto& i : a.data)
                    j.items.push_back(value(i));
                return j;
            }
        };
        return mpark::visit(Visitor{}, v);
    }

    void one(mc::Ctx& ctx, const Val& v, std::uint64_t n)
    {
        if (!complete(v))
            return;
        auto describe = [&] { return dump(v); };
        if (!ctx.beginN(n, describe))
            return;
        auto e = build(v);
        for (int maps = 0; maps < 2; ++maps) {
            const J want = rendered(v, maps);
            const so::Value got = refract::serialize::renderSo(*e, maps);
            const J g = value(got);
            ctx.step();
            if (!ctx.expect(g == want, std::string("rendered ") + (maps ? "with" : "without") + " source maps as " + jv::show(g)))
                continue;
            std::ostringstream json, yaml;
            so::serialize_json(json, got);
            so::serialize_yaml(yaml, got);
            try {
                ctx.expect(jv::readJson(json.str()) == want, "JSON reads otherwise: " + json.str());
                ctx.expect(jv::readYaml(yaml.str()) == want, "YAML reads otherwise: " + yaml.str());
            } catch (const jv::Bad& b) {
                ctx.violation(std::string("cannot be read: ") + b.what());
            }
            ctx.outcome(json.str());
        }
        ctx.expect(dump(*e) == dump(v), "rendering changed it");
        ctx.state(dump(v));
        ctx.trace();
    }

    void all(mc::Ctx& ctx, const std::vector<Val>& space)
    {
        std::uint64_t n = 0;
        for (auto& v : space) {
            ++n;
            if (ctx.mine() && !ctx.full())
                one(ctx, v, n);
        }
    }

    Val sourceMap(int at)
    {
        return arr({ arr({ arr({ num(std::to_string(at)), num("2") }) }).named("sourceMap") });
    }

    // every kind with every combination of infos, each with and without source maps
    std::vector<Val> decorated(const std::vector<Val>& base)
    {
        const std::vector<Info> infos{ {}, { { "sourceMap", sourceMap(1) } }, { { "a", num("7") } },
            { { "a", str("x").attr("sourceMap", sourceMap(2)) }, { "sourceMap", sourceMap(3) }, { "b", Val(Array) } },
            { { "c", arr({ str("y").attr("sourceMap", sourceMap(4)).metaOf("sourceMap", sourceMap(5)) }) } },
            { { "code", num("4").attr("sourceMap", sourceMap(6)) }, { "sourceMaps", str("kept") }, { "SourceMap", str("kept") } } };
        std::vector<Val> o;
        for (auto& v : base)
            for (auto& a : infos)
                for (auto& m : infos)
                    for (auto name : { "", "annotation", "Named" }) {
                        Val x = v;
                        x.attrs.insert(x.attrs.end(), a.begin(), a.end());
                        x.meta.insert(x.meta.end(), m.begin(), m.end());
                        o.push_back(*name ? x.named(name) : x);
                    }
        return o;
    }
}

SCENARIO("kinds", 8)
{
    all(ctx, decorated(leaves()));
}

SCENARIO("nested", 8)
{
    std::vector<Val> entries;
    for (auto name : { "", "annotation" })
        for (auto& v : { str("a").attr("sourceMap", sourceMap(1)), mem("k", num("1").attr("sourceMap", sourceMap(2))).metaOf("t", str("u").attr("sourceMap", sourceMap(3))),
                 Val(Option, std::vector<Val>{ mem("o", Val(Enum, std::vector<Val>{ str("e").attr("sourceMap", sourceMap(4)) })) }), null(), Val(String) })
            entries.push_back(*name ? v.named(name) : v);
    all(ctx, decorated(containers(entries, 2)));
    if (ctx.thorough)
        all(ctx, containers(entries, 4));
    else
        all(ctx, containers(entries, 3));
}

SCENARIO("names", 2)
{
    std::vector<Val> o;
    for (auto& k : vocabulary()) {
        o.push_back(str("a").attr(k, str("1")).attr("other", num("2")));
        o.push_back(str("a").metaOf("other", num("2")).metaOf(k, str("1")));
        o.push_back(str(k).named(k));
        o.push_back(obj({ mem(k, str(k)) }));
    }
    for (unsigned n = 0; n < 40; ++n) {
        for (auto k : { Array, Object, Extend, Option, Select })
            o.push_back(wide(k, n));
        o.push_back(deep(n));
    }
    for (auto& v : large(1025, 129))
        o.push_back(v);
    all(ctx, o);
}

MC_MAIN
