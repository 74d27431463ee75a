// C32: which messages get a body and a schema made from a data structure, and which ones.
#include "api.hpp"
#include "refract/JsonSchema.h"
#include "refract/JsonValue.h"
#include "utils/so/JsonIo.h"

using namespace em;

namespace
{
    // a data structure as it is written, as it is said, and with all that it refers to
    struct Form {
        std::string name, spec, members;
        Val element, whole;
        std::string body, schema;

        Form(const std::string& name, const std::string& spec, const std::string& members, const Val& element, const Val& whole)
            : name(name), spec(spec), members(members), element(element), whole(whole)
        {
            auto e = build(whole);
            std::ostringstream a, b;
            drafter::utils::so::serialize_json(a, refract::generateJsonValue(*e));
            drafter::utils::so::serialize_json(b, drafter::utils::so::Value(refract::schema::generateJsonSchema(*e)));
            body = a.str();
            schema = b.str();
        }
        api::Attributes attributes() const
        {
            api::Attributes a;
            a.is = true;
            a.spec = spec;
            a.members = members;
            a.element = element;
            return a;
        }
    };

    Val is(const Val& v, const std::vector<std::string>& traits)
    {
        Val t = arr();
        for (auto& x : traits)
            t.kids.push_back(str(x));
        return v.attr("typeAttributes", t);
    }
    Val fixed(const std::string& s)
    {
        return is(str(s), { "fixed" });
    }
    Val id(const Val& v, const char* name)
    {
        return v.metaOf("id", str(name));
    }

    struct Type {
        std::string text;
        Val element;
    };

    const std::vector<Type>& types()
    {
        static const std::vector<Type> t{
            { "## Base\n\n+ id: 1 (number)\n+ name (required) - of it\n", id(obj({ mem("id", num("1")), is(mem("name", Val(String)), { "required" }).metaOf("description", str("of it")) }), "Base") },
            { "## Derived (Base)\n\n+ name: x\n+ more (Items)\n", id(Val(Object, std::vector<Val>{ mem("name", str("x")), mem("more", Val(Array).named("Items")) }).named("Base"), "Derived") },
            { "## Items (array)\n\n+ one\n+ (Choice)\n", id(arr({ str("one"), Val(Enum).named("Choice") }), "Items") },
            { "## Choice (enum)\n\n+ a\n+ b - the other\n", id(Val(Enum).attr("enumerations", arr({ fixed("a"), fixed("b").metaOf("description", str("the other")) })), "Choice") },
            { "## Mixed\n\n+ Include Base\n+ One Of\n    + p: q\n    + r (Choice)\n",
                id(obj({ em::ref("Base").attr("path", str("content")), Val(Select, std::vector<Val>{ Val(Option, std::vector<Val>{ mem("p", str("q")) }), Val(Option, std::vector<Val>{ mem("r", Val(Enum).named("Choice")) }) }) }), "Mixed") },
        };
        return t;
    }

    const std::vector<Form>& forms()
    {
        static std::vector<Form> f;
        if (f.empty()) {
            const Val choice = Val(Enum).attr("enumerations", arr({ fixed("a"), fixed("b").metaOf("description", str("the other")) }));
            const Val items = arr({ str("one"), choice });
            const Val idOf = mem("id", num("1")), nameOf = is(mem("name", Val(String)), { "required" }).metaOf("description", str("of it"));
            const Val base = obj({ idOf, nameOf });
            const Val derived = obj({ idOf, mem("name", str("x")), mem("more", items) });
            const Val mixed = obj({ idOf, nameOf, Val(Select, std::vector<Val>{ Val(Option, std::vector<Val>{ mem("p", str("q")) }), Val(Option, std::vector<Val>{ mem("r", choice) }) }) });
            const Val own = is(mem("own", str("y")), { "required" });
            f = {
                Form("members", "", "+ own: y (required)\n+ n: 2 (number)\n", obj({ own, mem("n", num("2")) }), obj({ own, mem("n", num("2")) })),
                Form("a type", " (Base)", "", Val(Object).named("Base"), base),
                Form("a type of a type", " (Derived)", "", Val(Object).named("Derived"), derived),
                Form("a type and more", " (Derived)", "+ id: 3 (number)\n+ z (boolean)\n", Val(Object, std::vector<Val>{ mem("id", num("3")), mem("z", Val(Boolean)) }).named("Derived"),
                    obj({ mem("id", num("3")), mem("name", str("x")), mem("more", items), mem("z", Val(Boolean)) })),
                Form("an array of a type", " (array[Derived])", "", arr({ Val(Object).named("Derived") }), arr({ derived })),
                Form("a type that is an array", " (Items)", "", Val(Array).named("Items"), items),
                Form("an array", " (array)", "+ (Base)\n+ u\n", arr({ Val(Object).named("Base"), str("u") }), arr({ base, str("u") })),
                Form("a type that is an enum", " (Choice)", "", Val(Enum).named("Choice"), choice),
                Form("a type with a choice", " (Mixed)", "", Val(Object).named("Mixed"), mixed),
                Form("a mixin", "", "+ Include Derived\n+ last (array[Choice], fixed-type)\n", obj({ em::ref("Derived").attr("path", str("content")), is(mem("last", arr({ Val(Enum).named("Choice") })), { "fixedType" }) }),
                    obj({ idOf, mem("name", str("x")), mem("more", items), is(mem("last", arr({ choice })), { "fixedType" }) })),
                Form("nullable", " (Base, nullable)", "", is(Val(Object).named("Base"), { "nullable" }), is(base, { "nullable" })),
            };
        }
        return f;
    }

    struct Media {
        std::string text;
        bool json;
    };
    const std::vector<Media>& media()
    {
        static const std::vector<Media> m{ { "", false }, { "application/json", true }, { "application/hal+json", true }, { "application/json; charset=utf-8", true }, { "text/json", false }, { "application/vnd.api+json; version=1", true }, { "application/xml", false },
            { "text/plain", false }, { "application/schema+json", true }, { "application/jsonp", false }, { "json", false }, { "application/json+xml", false } };
        return m;
    }

    void make(api::Payload& p, const Form& f, bool json, bool bodies, bool schemas)
    {
        if (json && bodies)
            p.madeBody = f.body;
        if (json && schemas)
            p.madeSchema = f.schema;
    }

    void one(mc::Ctx& ctx, const api::Api& a, const std::vector<unsigned>& order, bool noBodies = false, bool noSchemas = false)
    {
        api::Api api = a;
        api.name = "A";
        for (auto i : order) {
            api.types += (api.types.empty() ? "" : "\n") + types()[i].text;
            api.structures.push_back(types()[i].element);
        }
        const std::string doc = api::text(api);
        if (!ctx.begin(mc::quote(doc) + (noBodies ? " without bodies" : "") + (noSchemas ? " without schemas" : "")))
            return;
        auto o = drafter_init_parse_options();
        if (noBodies)
            drafter_set_skip_gen_bodies(o);
        if (noSchemas)
            drafter_set_skip_gen_body_schemas(o);
        auto notes = api::check(ctx, doc, api::elements(api), false, nullptr, o);
        drafter_free_parse_options(o);
        for (auto& n : notes)
            if (n.text.find("is missing a response") == std::string::npos && n.text != "empty request message-body")
                ctx.violation("remark '" + n.text + "'");
        ctx.sample(mc::quote(doc), 1);
    }

    const std::vector<unsigned> straight{ 0, 1, 2, 3, 4 };

    std::vector<unsigned> permutation(unsigned n, unsigned k)
    {
        std::vector<unsigned> left(n), o;
        for (unsigned i = 0; i < n; ++i)
            left[i] = i;
        for (; n; k /= n, --n) {
            o.push_back(left[k % n]);
            left.erase(left.begin() + k % n);
        }
        return o;
    }
}

// every form of attributes, with the types they need declared in every order
SCENARIO("types", 8)
{
    for (auto& f : forms())
        for (unsigned k = 0; k < 120; ++k)
            for (unsigned way = 0; way < 8; ++way) {
                if (!ctx.mine() || ctx.full())
                    continue;
                if (!ctx.thorough && (k + way) % 2)
                    continue;
                const bool request = way & 1, first = way & 2, byAction = way & 4;
                if (byAction && !request)
                    continue;
                api::Payload p, q;
                p.request = request;
                p.name = request ? "N" : "200";
                p.type = "application/json";
                make(p, f, true, true, true);
                api::Action act;
                act.name = "Do";
                act.method = "POST";
                (byAction ? act.attributes : p.attributes) = f.attributes();
                q.name = "204";
                act.payloads = { p };
                if (request)
                    act.payloads.push_back(q);
                api::Resource r;
                r.name = "R";
                r.uri = "/r";
                r.actions = { act };
                api::Api a;
                a.loose = { r };
                a.typesFirst = first;
                one(ctx, a, permutation(5, k));
            }
}

// which messages get what, by all they have
SCENARIO("places", 8)
{
    const Form &own = forms()[3], &other = forms()[0];
    for (auto& m : media())
        for (unsigned via = 0; via < 3; ++via)
            for (unsigned has = 0; has < 8; ++has) // attributes, body, schema of its own
                for (unsigned where = 0; where < 3; ++where) // a request, a response, a model
                    for (unsigned around = 0; around < 4; ++around) // attributes of the action, of the resource
                        for (unsigned options = 0; options < 4; ++options) {
                            if (m.text.empty() && via)
                                continue;
                            if (via == 2 && where == 2)
                                continue;
                            if (!ctx.mine() || ctx.full())
                                continue;
                            const bool noBodies = options & 1, noSchemas = options & 2;
                            api::Payload p;
                            p.request = where == 0;
                            p.name = p.request ? "N" : "200";
                            if (via == 1)
                                p.headers = { { "X-A", "1" }, { "Content-Type", m.text } };
                            else if (via == 2)
                                p.headers = { { "content-TYPE", m.text } };
                            else
                                p.type = m.text;
                            if (has & 1)
                                p.attributes = own.attributes();
                            if (has & 2)
                                p.body = "own body\n", p.form = (has & 5) || via ? 2 : 1 + (m.json + around) % 4;
                            if (has & 4)
                                p.schema = "{}\n";
                            if (!has && where == 2)
                                p.body = "own body\n", p.form = 2;
                            api::Action act;
                            act.name = "Do";
                            act.method = "POST";
                            api::Resource r;
                            r.name = "R";
                            r.uri = "/r";
                            if (around & 1)
                                act.attributes = other.attributes();
                            if (around & 2) {
                                r.attributes = other.attributes();
                                r.attributes.element = id(r.attributes.element, "R");
                            }
                            api::Payload q;
                            q.name = "204";
                            if (where == 2) {
                                r.hasModel = true;
                                r.model = p;
                                r.model.name = "";
                                for (bool request : { true, false }) {
                                    api::Payload by;
                                    by.request = request;
                                    by.name = request ? "N" : "201";
                                    by.model = "R";
                                    if (has & 1)
                                        make(by, own, m.json, !noBodies, !noSchemas);
                                    else if (request && (around & 1))
                                        make(by, other, m.json, !noBodies, !noSchemas);
                                    act.payloads.push_back(by);
                                }
                            } else {
                                if (has & 1)
                                    make(p, own, m.json, !noBodies, !noSchemas);
                                else if (p.request && (around & 1))
                                    make(p, other, m.json, !noBodies, !noSchemas);
                                act.payloads = { p };
                                if (p.request)
                                    act.payloads.push_back(q);
                            }
                            r.actions = { act };
                            api::Api a;
                            a.loose = { r };
                            one(ctx, a, straight, noBodies, noSchemas);
                        }
}

MC_MAIN
