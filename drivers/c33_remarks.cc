// C33: a document's remarks name each duplicate, gap and slip of its messages where it is, and nothing else.
#include "api.hpp"

using namespace em;

namespace
{
    struct Remark {
        unsigned code;
        std::string text;
        std::size_t line;
        bool operator<(const Remark& o) const
        {
            return std::tie(line, code, text) < std::tie(o.line, o.code, o.text);
        }
        bool operator==(const Remark& o) const
        {
            return code == o.code && text == o.text && line == o.line;
        }
    };

    std::string show(const Remark& r)
    {
        return std::to_string(r.code) + " '" + r.text + "' on line " + std::to_string(r.line + 1);
    }

    std::size_t lineOf(const std::string& doc, std::size_t at)
    {
        return std::size_t(std::count(doc.begin(), doc.begin() + std::ptrdiff_t(std::min(at, doc.size())), '\n'));
    }

    // where an annotation begins: the first number of the first source map
    const Val* firstNumber(const Val& v)
    {
        if (v.name == "number")
            return &v;
        for (auto& k : v.kids)
            if (auto n = firstNumber(k))
                return n;
        return nullptr;
    }

    std::vector<Remark> said(const std::string& doc, const std::vector<Val>& notes)
    {
        std::vector<Remark> o;
        for (auto& n : notes) {
            Remark r{ 0, n.text, 0 };
            for (auto& a : n.attrs) {
                if (a.first == "code")
                    r.code = unsigned(std::stoul(a.second.text));
                if (a.first == "sourceMap")
                    if (auto p = firstNumber(a.second))
                        r.line = lineOf(doc, std::stoul(p->text));
            }
            o.push_back(r);
        }
        return o;
    }

    // all there is to be said of an API, by its text
    class Reader
    {
        const std::string& doc;
        std::size_t at = 0;
        std::vector<Remark> remarks;
        std::set<std::string> uris;

        std::size_t find(const std::string& line)
        {
            for (;;) {
                const std::size_t p = doc.find(line, at);
                if (p == std::string::npos)
                    throw std::logic_error("no line '" + line + "' in " + mc::quote(doc));
                at = p + 1;
                const std::size_t e = p + line.size();
                std::size_t b = p;
                while (b && doc[b - 1] == ' ')
                    --b;
                if ((b == 0 || doc[b - 1] == '\n') && (e == doc.size() || doc[e] == '\n'))
                    return lineOf(doc, p);
            }
        }
        void say(unsigned code, const std::string& text, std::size_t line)
        {
            remarks.push_back({ code, text, line });
        }
        static std::string low(std::string s)
        {
            for (auto& c : s)
                c = char(std::tolower(static_cast<unsigned char>(c)));
            return s;
        }

        void action(const api::Action& a, const std::string& mark)
        {
            const std::string what = a.method + (a.uri.empty() ? "" : " " + a.uri);
            const std::size_t line = find(mark + (a.name.empty() ? what : a.name + " [" + what + "]"));
            if (!a.relation.empty()) {
                const std::size_t l = find("+ Relation: " + a.relation);
                if (!legal(a.relation))
                    say(3, "relation identifier contains illegal characters (only lower case letters, numbers, '-' and '.' allowed)", l);
            }
            deprecated(a.oldHeaders);
            std::set<std::pair<std::string, std::string> > requests, responses;
            const api::Payload* waiting = nullptr; // for a response
            for (auto& p : a.payloads) {
                const std::size_t l = find(std::string(p.request ? "+ Request" : "+ Response") + (p.name.empty() ? "" : " " + p.name) + (p.type.empty() ? "" : " (" + p.type + ")"));
                if (p.request && !responses.empty()) {
                    requests.clear();
                    responses.clear();
                }
                std::string length, transfer;
                std::set<std::string> seen;
                if (!p.type.empty())
                    seen.insert("content-type");
                for (auto& h : p.headers) {
                    if (low(h.first) == "content-length")
                        length = h.second;
                    if (low(h.first) == "transfer-encoding")
                        transfer = h.second;
                    const std::size_t hl = find(h.first + ": " + h.second);
                    if (!seen.insert(low(h.first)).second)
                        say(13, "duplicate definition of '" + h.first + "' header", hl);
                }
                const std::string name = p.request || !p.name.empty() ? p.name : "200";
                const unsigned status = p.request ? 0 : unsigned(std::stoul(name));
                if (!p.request && p.name.empty())
                    say(6, "missing response HTTP status code, assuming 'Response 200'", l);
                if (p.request && p.model.empty() && p.body.empty() && !p.attributes.is && ((p.headers.empty() && p.type.empty() && p.parameters.empty()) || !length.empty() || !transfer.empty()))
                    say(6, std::string("empty request message-body") + (!length.empty() ? ", expected message-body for '" + length + "' Content-Length" : !transfer.empty() ? ", expected message-body for '" + transfer + "' Transfer-Encoding" : ""), l);
                if (!p.request && !p.body.empty() && (status / 100 == 1 || status == 204 || status == 304))
                    say(6, "the " + std::to_string(status) + " response MUST NOT include a message-body", l);
                auto& before = p.request ? requests : responses;
                if (!before.insert({ name, p.type.empty() ? api::contentType(p) : p.type }).second)
                    say(2, std::string(p.request ? "request" : "response") + " payload `" + name + "` already defined for `" + a.method + "` method", l);
                if (!p.request && !p.body.empty()) {
                    if (a.method == "HEAD")
                        say(6, "the response for HEAD request MUST NOT include a message-body", l);
                    if (a.method == "CONNECT" && status / 100 == 2)
                        say(6, "the response for " + std::to_string(status) + " CONNECT request MUST NOT include a message-body", l);
                }
                waiting = p.request ? &p : nullptr;
            }
            if (a.payloads.empty())
                say(6, "action is missing a response", line);
            else if (waiting)
                say(6, "action is missing a response for " + (waiting->name.empty() ? "a request" : "the '" + waiting->name + "' request"), line);
        }

        void deprecated(const std::vector<std::pair<std::string, std::string> >& headers)
        {
            if (!headers.empty())
                say(9, "the 'headers' section at this level is deprecated and will be removed in a future, use respective payload header section(s) instead", find("+ Headers"));
        }

        void resource(const api::Resource& r)
        {
            if (r.actions.size() == 1 && r.actions[0].abbreviated) {
                const std::size_t back = at;
                const api::Action& a = r.actions[0];
                const std::size_t line = find("## " + (a.name.empty() ? a.method + " " + a.uri : a.name + " [" + a.method + " " + a.uri + "]"));
                at = back;
                if (!uris.insert(a.uri).second)
                    say(2, "the resource '" + a.uri + "' is already defined", line);
                action(a, "## ");
                return;
            }
            const std::size_t line = find("## " + (r.name.empty() ? r.uri : r.name + " [" + r.uri + "]"));
            if (!uris.insert(r.uri).second)
                say(2, "the resource '" + r.uri + "' is already defined", line);
            deprecated(r.oldHeaders);
            std::set<std::pair<std::string, std::string> > methods;
            std::set<std::string> relations;
            for (auto& a : r.actions) {
                const std::size_t back = at;
                const std::string what = a.method + (a.uri.empty() ? "" : " " + a.uri);
                const std::size_t l = find("### " + (a.name.empty() ? what : a.name + " [" + what + "]"));
                at = back;
                action(a, "### ");
                if (!methods.insert({ a.uri, a.method }).second)
                    say(2, "action with method '" + a.method + "' already defined for resource '" + r.uri + "'", l);
                if (legal(a.relation) && !relations.insert(a.relation).second)
                    say(2, "relation identifier '" + a.relation + "' already defined for resource '" + r.uri + "'", l);
            }
        }

    public:
        static bool legal(const std::string& relation)
        {
            if (relation.empty() || !(relation[0] >= 'a' && relation[0] <= 'z'))
                return false;
            for (char c : relation)
                if (!((c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-' || c == '.'))
                    return false;
            return true;
        }

        Reader(const api::Api& a, const std::string& doc) : doc(doc)
        {
            std::map<std::string, unsigned> keys;
            for (auto& m : a.metadata)
                if (++keys[m.first] == 2)
                    say(2, "duplicate definition of '" + m.first + "'", 0);
            if (!a.name.empty())
                find("# " + a.name);
            for (auto& r : a.loose)
                resource(r);
            std::set<std::string> names;
            for (auto& g : a.groups) {
                const std::size_t line = find("# Group " + g.name);
                for (auto& r : g.resources)
                    resource(r);
                if (!names.insert(g.name).second)
                    say(2, "group '" + g.name + "' is already defined", line);
            }
        }
        std::vector<Remark> all()
        {
            std::sort(remarks.begin(), remarks.end());
            return remarks;
        }
    };

    // what an API means: relations that are none are left out, a missing status is 200
    api::Api means(api::Api a)
    {
        auto each = [](std::vector<api::Resource>& rs) {
            for (auto& r : rs)
                for (auto& x : r.actions) {
                    if (!Reader::legal(x.relation))
                        x.relation = "";
                    for (auto& p : x.payloads)
                        if (!p.request && p.name.empty())
                            p.name = "200";
                }
        };
        each(a.loose);
        for (auto& g : a.groups)
            each(g.resources);
        return a;
    }

    void compare(mc::Ctx& ctx, std::vector<Remark> got, std::vector<Remark> want)
    {
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        for (auto& r : want) {
            auto i = std::find(got.begin(), got.end(), r);
            if (i == got.end())
                ctx.violation("not said: " + show(r));
            else
                got.erase(i);
        }
        for (auto& r : got)
            ctx.violation("said, but not so: " + show(r));
    }

    void one(mc::Ctx& ctx, const api::Api& a, const api::Api* known = nullptr)
    {
        const std::string doc = api::text(a);
        if (!ctx.begin(mc::quote(doc)))
            return;
        const Val otherwise = known ? api::elements(*known) : Val();
        auto got = said(doc, api::check(ctx, doc, api::elements(means(a)), false, known ? &otherwise : nullptr, nullptr, "F38"));
        if (known) // the remarks of the finding
            got.erase(std::remove_if(got.begin(), got.end(), [](const Remark& r) { return r.code == 5 && r.text.find("ignoring additional ") == 0 && r.text.find(" header(s), specify this header(s) in the referenced model definition instead") != std::string::npos; }), got.end());
        compare(ctx, got, Reader(a, doc).all());
        ctx.sample(mc::quote(doc), 1);
    }

    api::Payload response(const std::string& status = "200", const std::string& body = "", const std::string& type = "")
    {
        api::Payload p;
        p.name = status;
        p.body = body;
        p.type = type;
        return p;
    }
    api::Payload request(const std::string& name, const std::string& body = "", const std::string& type = "")
    {
        api::Payload p = response(name, body, type);
        p.request = true;
        return p;
    }
    api::Action action(const std::string& name, const std::string& method, const std::vector<api::Payload>& payloads, const std::string& uri = "")
    {
        api::Action a;
        a.name = name;
        a.method = method;
        a.uri = uri;
        a.payloads = payloads;
        return a;
    }
    api::Resource resource(const std::string& name, const std::string& uri, const std::vector<api::Action>& actions)
    {
        api::Resource r;
        r.name = name;
        r.uri = uri;
        r.actions = actions;
        return r;
    }
    api::Api alone(const std::vector<api::Action>& actions)
    {
        api::Api a;
        a.name = "A";
        a.loose = { resource("R", "/r", actions) };
        return a;
    }

    // every sequence of up to n of the first k numbers
    template <typename F>
    void sequences(unsigned n, unsigned k, F f)
    {
        std::vector<unsigned> at;
        for (unsigned len = 0; len <= n; ++len) {
            at.assign(len, 0);
            for (;;) {
                f(at);
                unsigned i = 0;
                while (i < len && ++at[i] == k)
                    at[i++] = 0;
                if (i == len)
                    break;
            }
        }
    }
}

// sequences of messages of an action
SCENARIO("messages", 8)
{
    std::vector<api::Payload> kinds{ request("", "x"), request("N", "x"), request("N", "x", "a/b"), request("N"), response("200"), response("", "x"), response("200", "x", "a/b"), response("204", "x") };
    for (auto more : { request("N", "y", "a/b"), response("200", "y", "a/b") }) {
        more.form = 2;
        kinds.push_back(more);
    }
    auto headed = response("200", "z");
    headed.headers = { { "X-A", "1" }, { "content-type", "a/b" } };
    headed.form = 2;
    kinds.push_back(headed);
    sequences(ctx.thorough ? 5 : 4, unsigned(kinds.size()), [&](const std::vector<unsigned>& at) {
        if (!ctx.mine() || ctx.full())
            return;
        std::vector<api::Payload> ps;
        for (auto i : at)
            ps.push_back(kinds[i]);
        one(ctx, alone({ action("X", "POST", ps) }));
    });
}

// bodies where there must be none, and none where there should be
SCENARIO("bodies", 8)
{
    const std::vector<std::vector<std::pair<std::string, std::string> > > headers{ {}, { { "X-A", "1" } }, { { "Content-Length", "12" } }, { { "transfer-encoding", "chunked" } }, { { "CONTENT-LENGTH", "3" }, { "Transfer-Encoding", "gzip" } }, { { "Content-Type", "a/b" } } };
    for (auto method : { "GET", "POST", "HEAD", "CONNECT", "OPTIONS" })
        for (auto& hs : headers)
            for (unsigned form = 0; form < 5; ++form)
                for (auto name : { "", "N" })
                    for (auto type : { "", "a/b" }) {
                        for (auto status : { "", "100", "199", "200", "201", "204", "205", "299", "300", "304", "404", "504" })
                            for (auto second : { "", "c/d" }) {
                                if (!ctx.mine() || ctx.full())
                                    continue;
                                auto p = request(name, form ? "b" : "", type);
                                p.headers = hs;
                                p.form = form;
                                if (form % 2 && !hs.empty())
                                    p.form = form == 1 ? 4 : 2;
                                auto q = response(status, form % 2 ? "b" : "", second);
                                q.form = form;
                                one(ctx, alone({ action("X", method, { p, q }) }));
                            }
                    }
}

// resources and groups in all orders, with the same URIs and names
SCENARIO("resources", 8)
{
    // 0 and 1: resources; 2: an action that is a resource; 3: one by its URI; 4 and 5: groups begin
    sequences(ctx.thorough ? 7 : 5, 6, [&](const std::vector<unsigned>& at) {
        if (!ctx.mine() || ctx.full())
            return;
        api::Api a;
        a.name = "A";
        unsigned n = 0;
        for (auto i : at) {
            auto& to = a.groups.empty() ? a.loose : a.groups.back().resources;
            const std::string name = "R" + std::to_string(++n);
            if (i >= 4)
                a.groups.push_back({ i == 4 ? "G" : "H", "", {} });
            else if (i == 2) {
                auto x = action("", "GET", { response() }, "/a");
                x.abbreviated = true;
                to.push_back(resource("", "", { x }));
            } else
                to.push_back(resource(i == 3 ? "" : name, i == 1 ? "/b" : "/a", { action("X", "GET", { response() }) }));
        }
        one(ctx, a);
    });
}

// actions of a resource: methods, URIs and relations
SCENARIO("actions", 8)
{
    const std::vector<std::string> methods{ "GET", "POST" }, uris{ "", "/x", "/y" }, relations{ "", "a", "a-1.b", "A b" };
    const unsigned kinds = unsigned(methods.size() * uris.size() * relations.size());
    sequences(3, kinds, [&](const std::vector<unsigned>& at) {
        if (!ctx.mine() || ctx.full())
            return;
        std::vector<api::Action> all;
        unsigned n = 0;
        for (auto i : at) {
            auto x = action("X" + std::to_string(++n), methods[i % 2], i % 7 ? std::vector<api::Payload>{ response() } : std::vector<api::Payload>{}, uris[i / 2 % 3]);
            x.relation = relations[i / 6];
            all.push_back(x);
        }
        one(ctx, alone(all));
    });
    // relations of every text
    const std::vector<std::string> letters{ "a", "z", "0", "-", ".", "A", "_", "b" };
    sequences(ctx.thorough ? 5 : 4, unsigned(letters.size()), [&](const std::vector<unsigned>& at) {
        if (at.empty() || !ctx.mine() || ctx.full())
            return;
        auto x = action("X", "GET", { response() });
        for (auto i : at)
            x.relation += letters[i];
        auto y = action("Y", "POST", { response() });
        y.relation = "a";
        one(ctx, alone({ y, x }));
    });
}

// headers of actions and resources go to all messages below
SCENARIO("headers", 8)
{
    const std::vector<std::vector<std::pair<std::string, std::string> > > headers{ {}, { { "X-A", "1" } }, { { "X-B", "2" }, { "Content-Type", "a/b" } }, { { "Content-Length", "9" } } };
    for (auto& ofResource : headers)
        for (auto& ofAction : headers)
            for (auto& ofRequest : headers)
                for (auto& ofResponse : headers)
                    for (unsigned kind = 0; kind < 32; ++kind) {
                        if (!ctx.mine() || ctx.full())
                            continue;
                        auto p = request("N", kind & 1 ? "b" : "", kind & 2 ? "t/u" : "");
                        auto q = response("200", kind & 4 ? "b" : "", kind & 8 ? "t/u" : "");
                        p.headers = ofRequest;
                        q.headers = ofResponse;
                        p.form = q.form = 2;
                        auto x = action("X", "POST", kind & 16 ? std::vector<api::Payload>{ q, p, q } : std::vector<api::Payload>{ p, q });
                        x.oldHeaders = ofAction;
                        auto y = action("Y", "GET", { q });
                        auto a = alone({ x, y });
                        a.loose[0].oldHeaders = ofResource;
                        one(ctx, a);
                    }
}

// and to those that are a model's, wherever it is
SCENARIO("inherited", 8)
{
    const std::vector<std::vector<std::pair<std::string, std::string> > > headers{ {}, { { "X-A", "1" } }, { { "X-B", "2" }, { "Content-Type", "a/b" } } };
    for (auto& ofResource : headers)
        for (auto& ofAction : headers)
            for (auto& ofModel : headers)
                for (unsigned kind = 0; kind < 8; ++kind) {
                    if (!ctx.mine() || ctx.full())
                        continue;
                    auto q = response("200");
                    q.model = "M";
                    auto p = request("N");
                    p.model = "M";
                    auto x = action("X", "POST", kind & 1 ? std::vector<api::Payload>{ p, q } : std::vector<api::Payload>{ q });
                    x.oldHeaders = ofAction;
                    auto a = alone({ x });
                    a.loose[0].oldHeaders = ofResource;
                    auto m = resource("M", "/m", { action("Y", "GET", { response("204") }) });
                    m.hasModel = true;
                    m.model.headers = ofModel;
                    m.model.body = "b";
                    m.model.form = 2;
                    if (kind & 2)
                        m.model.schema = "{}";
                    a.loose.insert(kind & 4 ? a.loose.end() : a.loose.begin(), m);
                    auto lost = a;
                    lost.loose[0].oldHeaders.clear();
                    lost.loose[0].actions[0].oldHeaders.clear();
                    one(ctx, a, kind & 4 && !api::contentType(m.model).empty() && (!ofResource.empty() || !ofAction.empty()) ? &lost : nullptr);
                }
}

// actions after resources that are actions themselves
SCENARIO("strays", 4)
{
    for (auto group : { false, true })
        sequences(ctx.thorough ? 5 : 4, 8, [&](const std::vector<unsigned>& at) {
            if (at.empty() || at[0] > 2 || !ctx.mine() || ctx.full())
                return;
            std::string doc = group ? "# A\n\n# Group G\n" : "# A\n";
            api::Api a;
            a.name = "A";
            auto& to = group ? (a.groups.push_back({ "G", "", {} }), a.groups[0].resources) : a.loose;
            std::vector<Remark> want;
            unsigned n = 0;
            std::set<std::pair<std::string, std::string> > methods;
            for (auto i : at) {
                const std::string k = std::to_string(++n);
                doc += "\n";
                const std::size_t line = lineOf(doc, doc.size());
                if (i == 1 && !to.empty() && !to.back().name.empty()) { // of the resource
                    doc += "## Q" + k + " [GET /q" + k + "]\n\n+ Response 200\n";
                    to.back().actions.push_back(action("Q" + k, "GET", { response() }, "/q" + k));
                    continue;
                }
                if (i < 3) {
                    methods.clear();
                    if (i == 2) {
                        doc += "## R" + k + " [/r" + k + "]\n";
                        to.push_back(resource("R" + k, "/r" + k, {}));
                    } else {
                        auto x = action(i ? "Q" + k : "", "GET", { response() }, "/q" + k);
                        x.abbreviated = true;
                        doc += i ? "## Q" + k + " [GET /q" + k + "]\n\n+ Response 200\n" : "## GET /q" + k + "\n\n+ Response 200\n";
                        to.push_back(resource("", "", { x }));
                    }
                    continue;
                }
                // at either level, with a name or not, with a response or not
                const std::string method = i == 7 ? "POST" : "PUT";
                auto x = action(i % 2 ? "X" + k : "", method, i == 4 || i == 5 ? std::vector<api::Payload>{ response() } : std::vector<api::Payload>{});
                doc += (i > 5 ? "## " : "### ") + (i % 2 ? "X" + k + " [" + method + "]" : method) + "\n" + (x.payloads.empty() ? "" : "\n+ Response 200\n");
                auto& last = to.back();
                if (last.actions.size() == 1 && last.actions[0].abbreviated) {
                    want.push_back({ 5, "unexpected action '" + method + "', to define multiple actions for the '" + last.actions[0].uri + "' resource omit the HTTP method in its definition, e.g. '# /resource'", line });
                    if (!x.payloads.empty())
                        want.push_back({ 5, "ignoring unrecognized block", line + 2 });
                    continue;
                }
                if (x.payloads.empty())
                    want.push_back({ 6, "action is missing a response", line });
                if (!methods.insert({ "", method }).second)
                    want.push_back({ 2, "action with method '" + method + "' already defined for resource '" + last.uri + "'", line });
                last.actions.push_back(x);
            }
            if (!ctx.begin(mc::quote(doc)))
                return;
            compare(ctx, said(doc, api::check(ctx, doc, api::elements(a))), want);
            ctx.sample(mc::quote(doc), 1);
        });
}

// metadata, and the name of the API
SCENARIO("metadata", 4)
{
    const std::vector<std::pair<std::string, std::string> > lines{ { "FORMAT", "1A" }, { "HOST", "http://a.b/c" }, { "a", "1" }, { "a", "2" }, { "A", "1" }, { "b c", "d: e" } };
    sequences(ctx.thorough ? 6 : 5, unsigned(lines.size()), [&](const std::vector<unsigned>& at) {
        if (!ctx.mine() || ctx.full())
            return;
        auto a = alone({ action("X", "GET", { response() }) });
        for (auto i : at)
            a.metadata.push_back(lines[i]);
        one(ctx, a);
    });
}

MC_MAIN
