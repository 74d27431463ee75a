// C25: the calls of the library agree with one another, and options do what they say and nothing else.
#include "docs.hpp"
#include <cstring>

using namespace em;

namespace
{
    const unsigned NAME = 1, BODIES = 2, SCHEMAS = 4;

    struct ParseOptions {
        drafter_parse_options* o = nullptr;
        explicit ParseOptions(int flags)
        {
            if (flags < 0)
                return;
            o = drafter_init_parse_options();
            if (flags & NAME)
                drafter_set_name_required(o);
            if (flags & BODIES)
                drafter_set_skip_gen_bodies(o);
            if (flags & SCHEMAS)
                drafter_set_skip_gen_body_schemas(o);
        }
        ~ParseOptions()
        {
            if (o)
                drafter_free_parse_options(o);
        }
    };

    bool generated(const Val& v, const char* klass)
    {
        auto c = docs::at(v.meta, "classes");
        return v.name == "asset" && c && c->kids.size() == 1 && c->kids[0].text == klass && !docs::at(v.attrs, "sourceMap");
    }

    Val without(const Val& v, unsigned flags)
    {
        Val o = v;
        o.kids.clear();
        for (auto& k : v.kids)
            if (!(flags & BODIES && generated(k, "messageBody")) && !(flags & SCHEMAS && generated(k, "messageBodySchema")))
                o.kids.push_back(without(k, flags));
        return o;
    }

    std::string out(drafter_result* r, const drafter_serialize_options* o)
    {
        char* t = drafter_serialize(r, o);
        std::string s = t ? t : "<none>";
        std::free(t);
        return s;
    }

    jv::J withoutMaps(const jv::J& j)
    {
        jv::J o(j.kind, j.text);
        for (auto& i : j.items)
            o.items.push_back(withoutMaps(i));
        const auto* name = j.get("element");
        for (auto& m : j.members) {
            const bool info = name && (m.first == "meta" || m.first == "attributes");
            if (!info || (name->text == "annotation" && m.first == "attributes")) {
                o.members.emplace_back(m.first, info ? m.second : withoutMaps(m.second));
                continue;
            }
            jv::J i(jv::Object);
            for (auto& e : m.second.members)
                if (e.first != "sourceMap")
                    i.members.emplace_back(e.first, withoutMaps(e.second));
            if (!i.members.empty())
                o.members.emplace_back(m.first, i);
        }
        return o;
    }

    void outputs(mc::Ctx& ctx, const std::string& doc, drafter_result* r, int code, const drafter_parse_options* po)
    {
        std::string text[2][2];
        for (int json = 0; json < 2; ++json)
            for (int maps = 0; maps < 2; ++maps) {
                docs::SerializeOptions so(json, maps);
                text[json][maps] = out(r, so.o);
                char* t = nullptr;
                const int c = drafter_parse_blueprint_to(doc.c_str(), &t, po, so.o);
                ctx.expect(c == code && t && text[json][maps] == t, "parsing and serializing at once differs");
                std::free(t);
                ctx.step();
            }
        ctx.expect(out(r, nullptr) == text[0][0], "without options it is not YAML without source maps");
        char* t = nullptr;
        ctx.expect(drafter_parse_blueprint_to(doc.c_str(), &t, po, nullptr) == code && t && text[0][0] == t, "without options, at once, it is not YAML without source maps");
        std::free(t);
        try {
            const jv::J bare = jv::readJson(text[1][0]), mapped = jv::readJson(text[1][1]);
            ctx.expect(jv::readYaml(text[0][0]) == bare && jv::readYaml(text[0][1]) == mapped, "JSON and YAML differ");
            ctx.expect(withoutMaps(mapped) == bare, "there is more to source maps than source maps");
        } catch (const jv::Bad& b) {
            ctx.violation(std::string("an output cannot be read: ") + b.what());
        }
    }

    void checks(mc::Ctx& ctx, const std::string& doc, const Val& v, int code, const drafter_parse_options* po)
    {
        drafter_result* c = reinterpret_cast<drafter_result*>(8);
        ctx.expect(drafter_check_blueprint(doc.c_str(), &c, po) == code, "checking returns another code");
        Val want(Array);
        want.name = "parseResult";
        want.has = true;
        for (auto& k : v.kids)
            if (k.name == "annotation")
                want.kids.push_back(k);
        if (want.kids.empty())
            ctx.expect(c == nullptr, "checking finds something");
        else if (ctx.expect(c != nullptr, "checking finds nothing"))
            ctx.expect(dump(*c) == dump(want), "checking finds " + dump(*c));
        if (c && !want.kids.empty())
            drafter_free_result(c);
    }

    void check(mc::Ctx& ctx, const std::string& doc)
    {
        Val base;
        int baseCode = 0;
        for (int flags = -1; flags < 8; ++flags) {
            ParseOptions po(flags);
            auto p = docs::parse(doc, po.o);
            if (!ctx.expect(p.result != nullptr, "no result"))
                return;
            const Val v = read(*p.result);
            ctx.step();
            if (flags <= 0) {
                if (flags == 0)
                    ctx.expect(dump(v) == dump(base) && p.code == baseCode, "no options differ from options with nothing set");
                base = v;
                baseCode = p.code;
            } else {
                bool unnamed = false; // and so, where a name is needed, an error and nothing but
                if (flags & NAME && p.code && p.code != baseCode) {
                    unnamed = true;
                    ctx.expect(p.code == 2 && v.kids.size() >= 1 && v.kids[0].name == "annotation" && v.kids[0].text == "expected API name, e.g. '# <API Name>'",
                        "with a name required it is " + dump(v));
                    auto title = base.kids.empty() ? nullptr : docs::at(base.kids[0].meta, "title");
                    ctx.expect(!title || title->text.empty(), "there is a name");
                    ctx.count("without a name");
                }
                if (!unnamed) {
                    ctx.expect(p.code == baseCode, "another code");
                    if (dump(v) != dump(without(base, flags)))
                        ctx.violation("with options " + std::to_string(flags) + " it is " + dump(v));
                    if (flags & NAME && !baseCode) {
                        auto title = docs::at(v.kids[0].meta, "title");
                        ctx.expect(title && (!title->text.empty() || doc.find_first_not_of(" \n") == std::string::npos), "there is no name, and no error");
                    }
                }
                if (dump(v) != dump(base))
                    ctx.count("different with options");
            }
            if (flags == -1 || flags == 7) {
                outputs(ctx, doc, p.result, p.code, po.o);
                ctx.expect(dump(*p.result) == dump(v), "serializing changed the result");
                checks(ctx, doc, v, p.code, po.o);
                ctx.expect(drafter_parse_blueprint(doc.c_str(), nullptr, po.o) == p.code, "without a place for the result the code differs");
                ctx.expect(drafter_parse_blueprint_to(doc.c_str(), nullptr, po.o, nullptr) == p.code, "without a place for the text the code differs");
                ctx.expect(drafter_check_blueprint(doc.c_str(), nullptr, po.o) == p.code, "without a place for what checking finds the code differs");
            }
        }
        ctx.state(doc);
        ctx.outcome(dump(base));
        ctx.trace();
    }

    const std::vector<std::string>& payloads()
    {
        static const std::vector<std::string> p{
            "# A\n# POST /x\n+ Request (application/json)\n    + Attributes\n        + a: 1 (number)\n+ Response 200 (application/json)\n    + Attributes (array[string])\n",
            "# A\n# POST /x\n+ Attributes\n    + b (object)\n        + c: x\n+ Request (application/json)\n+ Response 200 (application/json)\n    + Attributes\n        + a\n    + Body\n\n            {}\n",
            "# A\n# POST /x\n+ Response 200 (application/json)\n    + Attributes\n        + a\n    + Schema\n\n            {\"type\": \"object\"}\n",
            "# POST /x\n+ Response 200 (text/plain)\n    + Attributes\n        + a\n",
            "FORMAT: 1A\n\n# Group G\n## R [/r]\n+ Model (application/vnd.x+json)\n    + Attributes (T)\n### G [GET]\n+ Response 200\n    [R][]\n\n# Data Structures\n## T\n+ a: 1, 2 (enum[number])\n",
            "# A\n# POST /x\n+ Response 200 (application/json)\n    + Attributes (Missing)\n+ Response 201 (application/json; charset=\"u\")\n    + Attributes (object)\n        + \xC3\xA9: \xE2\x82\xAC\n",
            "# A\n# Data Structures\n## A (B)\n## B (A)\n# GET /x\n+ Response 200 (application/json)\n    + Attributes (A)\n",
            "# A\n# Data Structures\n## A\n+ a (A)\n# GET /x\n+ Response 200 (application/json)\n    + Attributes (A)\n",
        };
        return p;
    }
}

SCENARIO("documents", 16)
{
    docs::each(ctx, ctx.thorough ? 2 : 1, [&](const std::string& d) { check(ctx, d); });
}

SCENARIO("payloads", 8)
{
    docs::each(ctx, ctx.thorough ? 2 : 1, [&](const std::string& d) { check(ctx, d); }, payloads());
}

SCENARIO("fixtures", 16)
{
    // every document of the fixtures; the shorter ones with every edit of a line, too
    if (ctx.thorough)
        docs::edits(ctx, 300, 4096, false, [&](const std::string& d) { check(ctx, d); });
    else
        docs::edits(ctx, 0, 180, false, [&](const std::string& d) { check(ctx, d); });
}

SCENARIO("whole-fixtures", 8)
{
    for (auto& f : docs::fixtures(16384))
        if (ctx.mine() && !ctx.full() && ctx.begin(f.first.substr(f.first.rfind('/') + 1)))
            check(ctx, f.second);
}

SCENARIO("options", 1)
{
    // every history of setting options
    for (unsigned len = 0; len <= 4; ++len) {
        unsigned all = 1;
        for (unsigned i = 0; i < len; ++i)
            all *= 3;
        for (unsigned h = 0; h < all; ++h) {
            ctx.enter("options, history " + std::to_string(len) + "." + std::to_string(h));
            auto o = drafter_init_parse_options();
            bool set[3] = {};
            unsigned x = h;
            for (unsigned i = 0; i <= len; ++i) {
                ctx.expect(drafter::is_name_required(o) == set[0] && drafter::is_skip_gen_bodies(o) == set[1] && drafter::is_skip_gen_body_schemas(o) == set[2], "options are not what was set");
                if (i == len)
                    break;
                (x % 3 == 0 ? drafter_set_name_required : x % 3 == 1 ? drafter_set_skip_gen_bodies : drafter_set_skip_gen_body_schemas)(o);
                set[x % 3] = true;
                x /= 3;
                ctx.step();
            }
            drafter_free_parse_options(o);
            ctx.state(std::to_string(set[0]) + std::to_string(set[1]) + std::to_string(set[2]));
            ctx.trace();
            auto s = drafter_init_serialize_options();
            bool maps = false;
            drafter_format f = DRAFTER_SERIALIZE_YAML;
            x = h;
            for (unsigned i = 0; i <= len; ++i) {
                ctx.expect(drafter::are_sourcemaps_included(s) == maps && drafter::get_format(s) == f, "options are not what was set");
                if (i == len)
                    break;
                if (x % 3 == 0) {
                    drafter_set_sourcemaps_included(s);
                    maps = true;
                } else
                    drafter_set_format(s, f = x % 3 == 1 ? DRAFTER_SERIALIZE_JSON : DRAFTER_SERIALIZE_YAML);
                x /= 3;
                ctx.step();
            }
            drafter_free_serialize_options(s);
            ctx.trace();
        }
    }
    if (ctx.begin("nothing")) {
        ctx.expect(!drafter::is_name_required(nullptr) && !drafter::is_skip_gen_bodies(nullptr) && !drafter::is_skip_gen_body_schemas(nullptr)
                && !drafter::are_sourcemaps_included(nullptr) && drafter::get_format(nullptr) == DRAFTER_SERIALIZE_YAML,
            "what holds without options");
        drafter_free_result(nullptr);
        drafter_free_parse_options(nullptr);
        drafter_free_serialize_options(nullptr);
        ctx.expect(drafter_serialize(nullptr, nullptr) == nullptr, "nothing is serialized as something");
        drafter_result* r = reinterpret_cast<drafter_result*>(8);
        char* t = reinterpret_cast<char*>(8);
        ctx.expect(drafter_parse_blueprint(nullptr, &r, nullptr) == DRAFTER_EINVALID_INPUT && drafter_check_blueprint(nullptr, &r, nullptr) == DRAFTER_EINVALID_INPUT
                && drafter_parse_blueprint_to(nullptr, &t, nullptr, nullptr) == DRAFTER_EINVALID_INPUT,
            "no source is not invalid input");
        ctx.expect(r == reinterpret_cast<drafter_result*>(8) && t == reinterpret_cast<char*>(8), "no source has a result");
    }
    if (ctx.begin("version")) {
        unsigned a = 0, b = 0, c = 0;
        const unsigned v = drafter_version();
        ctx.expect(std::sscanf(drafter_version_string(), "v%u.%u.%u", &a, &b, &c) == 3 && v == (a << 16 | b << 8 | c), std::string("the version is ") + drafter_version_string() + " and " + std::to_string(v));
    }
}

MC_MAIN
