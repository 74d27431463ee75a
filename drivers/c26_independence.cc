// C26: what a call gives depends on its arguments alone, and takes no memory for good.
#include "docs.hpp"
#include <malloc.h>
#include <sys/wait.h>

// blocks of memory in use
extern "C" {
void* __libc_malloc(std::size_t);
void* __libc_calloc(std::size_t, std::size_t);
void* __libc_realloc(void*, std::size_t);
void __libc_free(void*);
static long blocks;
void* malloc(std::size_t n)
{
    void* p = __libc_malloc(n);
    blocks += p != nullptr;
    return p;
}
void* calloc(std::size_t n, std::size_t m)
{
    void* p = __libc_calloc(n, m);
    blocks += p != nullptr;
    return p;
}
void* realloc(void* o, std::size_t n)
{
    void* p = __libc_realloc(o, n);
    if (!o)
        blocks += p != nullptr;
    else if (!n)
        --blocks;
    return p;
}
void free(void* p)
{
    blocks -= p != nullptr;
    __libc_free(p);
}
}

namespace
{
    // documents that use the same names for different things, or miss what another one has
    const std::vector<std::string>& documents()
    {
        static const std::vector<std::string> d{
            "",
            "FORMAT: 1A\nHOST: http://a.b\n\n# API\n\n# Group G\n## R [/r/{id}]\n+ Parameters\n    + id: `1` (required, number)\n        + Default: `2`\n\n### G [GET]\n+ Relation: self\n+ Response 200 (text/plain)\n    + Headers\n\n            X: 1\n\n    + Body\n\n            a\n",
            "# A\n# Data Structures\n## T\n+ a: 1 (number, required)\n## U (T)\n+ b (array[T])\n# GET /x\n+ Response 200 (application/json)\n    + Attributes (U)\n",
            "# A\n# Data Structures\n## T (enum)\n+ `x`\n+ `y`\n# GET /x\n+ Response 200 (application/json)\n    + Attributes (array[T])\n",
            "# A\n# GET /x\n+ Response 200 (application/json)\n    + Attributes (T)\n",
            "# A\n# Data Structures\n## T (U)\n## U (T)\n+ Include V\n## V\n+ Include V\n# GET /x\n+ Response 200 (application/json)\n    + Attributes (T)\n",
            "# A\n## R [/r]\n+ Model (application/json)\n\n        {}\n\n### G [GET]\n+ Response 200\n\n    [R][]\n",
            "# A\n## S [/r]\n### G [GET]\n+ Response 200\n\n    [R][]\n",
            "# A\n# GET /x{?y\n+ Parameters\n    + y\n    + y\n+ Response\n+ Responce 300\n+ Response 200\n+ Response 200\n    text\n",
            "# Data Structures\n## T\n+ One Of\n    + a: `1`, 2 (array[number])\n    + Properties\n        + b\n            + Sample: c\n+ Include T\n\xC3\xA9\n",
            "# A\n# POST /p\n+ Request (application/json)\n    + Attributes\n        + a (enum)\n            + `1`\n            + Default: `1`\n        + b (object, nullable, fixed)\n            + c: true (boolean)\n+ Response 204\n",
        };
        return d;
    }

    enum Kind
    {
        Parse,
        Check,
        Write,
        Free
    };
    struct Op {
        Kind kind;
        unsigned doc, how, slot;
        std::string show() const
        {
            static const char* names[] = { "parse", "check", "write", "free" };
            std::string s = names[kind];
            if (kind == Parse || kind == Check)
                s += " document " + std::to_string(doc) + (how ? " with options" : "");
            if (kind == Write)
                s += std::string(how & 1 ? " JSON" : " YAML") + (how & 2 ? " with source maps" : "") + " of";
            if (kind != Check)
                s += (kind == Parse ? " into " : " ") + std::to_string(slot);
            return s;
        }
    };

    struct Options {
        drafter_parse_options* o = nullptr;
        explicit Options(unsigned how)
        {
            if (!how)
                return;
            o = drafter_init_parse_options();
            drafter_set_name_required(o);
            drafter_set_skip_gen_body_schemas(o);
        }
        ~Options()
        {
            if (o)
                drafter_free_parse_options(o);
        }
    };

    struct Slots {
        drafter_result* r[2] = { nullptr, nullptr };
        int doc[2] = { -1, -1 };
        unsigned how[2] = { 0, 0 };
        void drop(unsigned s)
        {
            if (r[s])
                drafter_free_result(r[s]);
            r[s] = nullptr;
            doc[s] = -1;
        }
    };

    std::string text(drafter_result* r, unsigned how)
    {
        return docs::serialize(r, how & 1, how & 2);
    }

    // what an operation gives: a code, and what can be seen of a result
    std::string run(const Op& op, Slots& s)
    {
        switch (op.kind) {
            case Parse: {
                s.drop(op.slot);
                Options o(op.how);
                const int c = drafter_parse_blueprint(documents()[op.doc].c_str(), &s.r[op.slot], o.o);
                s.doc[op.slot] = int(op.doc);
                s.how[op.slot] = op.how;
                return std::to_string(c);
            }
            case Check: {
                Options o(op.how);
                drafter_result* r = nullptr;
                const int c = drafter_check_blueprint(documents()[op.doc].c_str(), &r, o.o);
                std::string t = std::to_string(c) + (r ? text(r, 3) : " nothing");
                if (r)
                    drafter_free_result(r);
                return t;
            }
            case Write:
                return text(s.r[op.slot], op.how);
            case Free:
                s.drop(op.slot);
                return "";
        }
        return "";
    }

    // in a process of its own
    struct Shared {
        char text[1 << 20];
    };
    Shared* shared()
    {
        static Shared* p = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        return p;
    }
    template <typename F>
    std::string apart(F f)
    {
        shared()->text[0] = 0;
        const pid_t p = fork();
        if (p == 0) {
            const std::string s = f();
            std::strncpy(shared()->text, s.c_str(), sizeof(Shared) - 1);
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
            return "the process ended with status " + std::to_string(st);
        return shared()->text;
    }

    struct Expected {
        std::map<std::string, std::string> of;
        Expected()
        {
            for (unsigned d = 0; d < documents().size(); ++d)
                for (unsigned how = 0; how < 2; ++how) {
                    const Op parse{ Parse, d, how, 0 }, check{ Check, d, how, 0 };
                    of[key(parse)] = apart([&] { Slots s; return run(parse, s); });
                    of[key(check)] = apart([&] { Slots s; return run(check, s); });
                    for (unsigned f = 0; f < 4; ++f)
                        of[key(Op{ Write, d, f, 0 }, how)] = apart([&] {
                            Slots s;
                            run(parse, s);
                            return run(Op{ Write, 0, f, 0 }, s);
                        });
                }
        }
        static std::string key(const Op& o, unsigned how = 0)
        {
            return std::to_string(o.kind) + "," + std::to_string(o.doc) + "," + std::to_string(o.how) + "," + std::to_string(how);
        }
    };

    std::string replay(const std::vector<Op>& h, const Expected& want, Slots& s)
    {
        for (std::size_t i = 0; i < h.size(); ++i) {
            Op o = h[i];
            std::string w;
            if (o.kind == Write)
                w = want.of.at(Expected::key(Op{ Write, unsigned(s.doc[o.slot]), o.how, 0 }, s.how[o.slot]));
            else if (o.kind != Free)
                w = want.of.at(Expected::key(Op{ o.kind, o.doc, o.how, 0 }));
            const std::string got = run(o, s);
            if (got != w) {
                std::size_t d = 0;
                while (d < got.size() && d < w.size() && got[d] == w[d])
                    ++d;
                d = d > 60 ? d - 60 : 0;
                return "step " + std::to_string(i + 1) + " gives ..." + got.substr(d, 160) + " where it alone gives ..." + w.substr(d, 160);
            }
        }
        s.drop(0);
        s.drop(1);
        return "";
    }

    void all(mc::Ctx& ctx, unsigned depth, unsigned options, const std::vector<unsigned>& which, const std::vector<int>& garbage)
    {
        const Expected want;
        std::vector<Op> h;
        std::vector<bool> used{ false, false };
        std::function<void()> go = [&] {
            if (h.size() == depth) {
                for (int g : garbage) {
                    if (!ctx.mine() || ctx.full())
                        continue;
                    std::string id = "memory " + std::to_string(g);
                    for (auto& o : h)
                        id += "; " + o.show();
                    if (!ctx.begin(id))
                        continue;
                    const std::string r = apart([&]() -> std::string {
                        if (g)
                            mallopt(M_PERTURB, g);
                        Slots s;
                        long live[3];
                        for (auto& l : live) {
                            const std::string r = replay(h, want, s);
                            if (!r.empty())
                                return r;
                            l = blocks;
                        }
                        if (live[2] > live[1])
                            return std::to_string(live[2] - live[1]) + " blocks of memory are not given back";
                        return "";
                    });
                    ctx.expect(r.empty(), r);
                    ctx.step(h.size() * 3);
                    ctx.state(id.substr(id.find(';')));
                    ctx.outcome(h.back().show());
                    ctx.trace();
                    ctx.sample(id, 1);
                }
                return;
            }
            const auto before = used;
            for (unsigned how = 0; how < options; ++how)
                for (unsigned d : which) {
                    for (unsigned s = 0; s < 2; ++s) {
                        if (s && !used[0])
                            continue; // the same but for the name
                        h.push_back(Op{ Parse, d, how, s });
                        used[s] = true;
                        go();
                        used = before;
                        h.pop_back();
                    }
                    h.push_back(Op{ Check, d, how, 0 });
                    go();
                    h.pop_back();
                }
            for (unsigned s = 0; s < 2; ++s)
                if (used[s]) {
                    for (unsigned f = 0; f < 4; ++f) {
                        h.push_back(Op{ Write, 0, f, s });
                        go();
                        h.pop_back();
                    }
                    h.push_back(Op{ Free, 0, 0, s });
                    used[s] = false;
                    go();
                    used = before;
                    h.pop_back();
                }
        };
        go();
    }

    std::vector<unsigned> first(unsigned n)
    {
        std::vector<unsigned> v;
        for (unsigned i = 0; i < n; ++i)
            v.push_back(i);
        return v;
    }
}

SCENARIO("all-documents", 8)
{
    all(ctx, ctx.thorough ? 3 : 2, 2, first(unsigned(documents().size())), ctx.thorough ? std::vector<int>{ 0, 0x5A, 0xFF } : std::vector<int>{ 0x5A });
}

SCENARIO("longer", 8)
{
    if (ctx.thorough)
        all(ctx, 4, 1, { 1, 2, 3, 6, 8 }, { 0xFF });
    else
        all(ctx, 3, 1, { 1, 2, 3, 6, 8 }, { 0 });
}

SCENARIO("fixtures", 8)
{
    // every document of the fixtures before every one that follows it by up to so many (thorough: any other): what the
    // second gives is what it gives alone, and what the first gives again; nothing is left
    const auto all = docs::fixtures(ctx.thorough ? 4096 : 2048);
    auto give = [](const std::string& d) {
        drafter_result* r = nullptr;
        const int c = drafter_parse_blueprint(d.c_str(), &r, nullptr);
        std::string o = std::to_string(c) + text(r, 3);
        drafter_free_result(r);
        drafter_result* k = nullptr;
        o += std::to_string(drafter_check_blueprint(d.c_str(), &k, nullptr));
        if (k) {
            o += text(k, 3);
            drafter_free_result(k);
        }
        return o;
    };
    auto digest = [](const std::string& s) { return std::to_string(s.size()) + "." + std::to_string(std::hash<std::string>()(s)); };
    std::map<std::size_t, std::string> alone;
    auto expected = [&](std::size_t i) -> const std::string& {
        auto it = alone.find(i);
        if (it == alone.end())
            it = alone.emplace(i, apart([&] { return digest(give(all[i].second)); })).first;
        return it->second;
    };
    const std::size_t reach = ctx.thorough ? all.size() - 1 : 6;
    for (std::size_t i = 0; i < all.size(); ++i) {
        if (!ctx.mine() || ctx.full() || !ctx.begin(all[i].first.substr(all[i].first.rfind('/') + 1)))
            continue;
        std::vector<std::size_t> after;
        for (std::size_t k = 1; k <= reach; ++k)
            after.push_back((i + k) % all.size());
        const std::string first = expected(i);
        std::vector<std::string> then;
        for (auto j : after)
            then.push_back(expected(j));
        const std::string r = apart([&]() -> std::string {
            for (std::size_t k = 0; k < after.size(); ++k) {
                long live[3];
                for (auto& l : live) {
                    if (digest(give(all[i].second)) != first)
                        return "is another after " + all[after[k ? k - 1 : 0]].first;
                    if (digest(give(all[after[k]].second)) != then[k])
                        return "makes " + all[after[k]].first + " another";
                    l = blocks;
                }
                if (live[2] > live[1])
                    return std::to_string(live[2] - live[1]) + " blocks of memory are not given back, with " + all[after[k]].first;
            }
            return "";
        });
        ctx.expect(r.empty(), r);
        ctx.step(after.size() * 6);
        ctx.state(all[i].second);
        ctx.outcome(first);
        ctx.trace();
    }
}

MC_MAIN
