// C11: the registry of named types.
#include "elems.hpp"
#include "histories.hpp"
#include "refract/Registry.h"
#include "refract/Exception.h"

using namespace em;

namespace
{
    const std::vector<std::string> BASES{ "array", "boolean", "enum", "null", "number", "object", "string" };
    const std::vector<std::string> RESERVED{ "array", "boolean", "enum", "extend", "generic", "member", "null", "number",
        "object", "option", "ref", "select", "string" };

    bool reserved(const std::string& s)
    {
        return std::find(RESERVED.begin(), RESERVED.end(), s) != RESERVED.end();
    }

    Kind baseKind(const std::string& s)
    {
        for (int k = 0; k < Kinds; ++k)
            if (defaultName(static_cast<Kind>(k)) == s)
                return static_cast<Kind>(k);
        return Null;
    }

    struct Op {
        enum Kind { Add, AddBad, Remove, Clear } kind = Clear;
        std::string name;
        int variant = 0;
    };

    std::string show(const Op& o)
    {
        static const char* n[] = { "add", "add-bad", "remove", "clear" };
        return std::string(n[o.kind]) + "(" + mc::quote(o.name) + "," + std::to_string(o.variant) + ")";
    }

    const std::vector<std::string> NAMES{ "A", "B", "", "strings" };
    const std::vector<std::string> REMOVED{ "A", "B", "", "strings", "string", "array", "none", "generic" };

    Val variant(const std::string& name, int i)
    {
        Val v = i == 0 ? obj({ mem("x", str("1")) }).named("B") : str("text").attr("sample", str("s"));
        return v.metaOf("id", str(name)).metaOf("title", str("t"));
    }

    // not to be registered
    Val bad(int i)
    {
        switch (i) {
            case 0:
                return obj();
            case 1:
                return obj().metaOf("id", num("1"));
            case 2:
                return obj().metaOf("id", arr({ str("A") }));
            case 3:
                return obj().metaOf("ref", str("A")).attr("id", str("A"));
            default:
                return obj().metaOf("id", str(RESERVED[i - 4]));
        }
    }
    const int BAD = 4 + 13;

    struct World {
        bool live;
        std::map<std::string, std::string> ref; // name -> what is registered
        std::unique_ptr<Registry> real;
        std::map<std::string, const IElement*> where;
        std::string problem;

        explicit World(bool l) : live(l)
        {
            for (auto& b : BASES)
                ref[b] = dump(Val(baseKind(b)));
            if (live)
                real.reset(new Registry());
        }
        World model() const
        {
            World w(false);
            w.ref = ref;
            return w;
        }
        std::string key() const
        {
            std::string o;
            for (auto& r : ref)
                o += mc::quote(r.first) + "=" + r.second + ";";
            return o;
        }
        std::vector<Op> moves() const
        {
            std::vector<Op> o;
            for (auto& n : NAMES)
                for (int v = 0; v < 2; ++v)
                    o.push_back(Op{ Op::Add, n, v });
            for (int i = 0; i < BAD; ++i)
                o.push_back(Op{ Op::AddBad, "", i });
            for (auto& n : REMOVED)
                o.push_back(Op{ Op::Remove, n });
            o.push_back(Op{ Op::Clear });
            return o;
        }
        void expect(bool ok, const std::string& what)
        {
            if (!ok && problem.empty())
                problem = what;
        }
        void apply(const Op& o)
        {
            switch (o.kind) {
                case Op::Add: {
                    const Val v = variant(o.name, o.variant);
                    const bool fresh = !ref.count(o.name);
                    if (fresh)
                        ref[o.name] = dump(v);
                    if (live) {
                        auto e = build(v);
                        const IElement* p = e.get();
                        bool done = false, threw = false;
                        try {
                            done = real->add(std::move(e));
                        } catch (const LogicError&) {
                            threw = true;
                        }
                        expect(!threw, "adding " + o.name + " throws");
                        expect(done == fresh, std::string("adding ") + o.name + (fresh ? " fails" : " again succeeds"));
                        if (fresh)
                            expect(real->find(o.name) == p, "another element is registered");
                    }
                    break;
                }
                case Op::AddBad:
                    if (live) {
                        bool threw = false;
                        try {
                            real->add(build(bad(o.variant)));
                        } catch (const LogicError&) {
                            threw = true;
                        }
                        expect(threw, "adding " + dump(bad(o.variant)) + " is no error");
                    }
                    break;
                case Op::Remove: {
                    const bool there = ref.erase(o.name) != 0;
                    if (live)
                        expect(real->remove(o.name) == there, "removing " + o.name);
                    break;
                }
                case Op::Clear:
                    ref.clear();
                    if (live)
                        real->clear();
                    break;
            }
        }
        void check()
        {
            if (!live)
                return;
            std::set<std::string> all(REMOVED.begin(), REMOVED.end());
            all.insert(RESERVED.begin(), RESERVED.end());
            all.insert("text");
            all.insert("a");
            for (auto& n : all) {
                const IElement* e = real->find(n);
                const std::string want = ref.count(n) ? ref[n] : "<none>";
                expect(dump(e) == want, mc::quote(n) + " is " + dump(e) + ", expected " + want);
            }
        }
    };
}

SCENARIO("operations", 8)
{
    mc::histories<World, Op>(
        ctx, [](bool live) { return World(live); }, [](const Op& o) { return show(o); }, ctx.thorough ? 100 : 6);
}

SCENARIO("reserved", 4)
{
    // the reserved names, all words of up to three letters around them, and everything one edit away
    std::set<std::string> words{ "" };
    const std::string letters = "aelnorstx";
    for (char a : letters)
        for (char b : letters)
            for (char c : letters) {
                words.insert(std::string(1, a));
                words.insert(std::string{ a, b });
                words.insert(std::string{ a, b, c });
            }
    std::vector<std::string> edits(RESERVED.begin(), RESERVED.end());
    for (int round = 0; round < (ctx.thorough ? 2 : 1); ++round) {
        std::vector<std::string> next;
        for (auto& w : edits)
            for (std::size_t i = 0; i <= w.size(); ++i) {
                if (i < w.size()) {
                    next.push_back(w.substr(0, i) + w.substr(i + 1));
                    next.push_back(w.substr(0, i));
                    next.push_back(w.substr(i));
                }
                for (int c = round ? 'a' : 1; c < (round ? 'f' : 256); ++c) {
                    next.push_back(w.substr(0, i) + static_cast<char>(c) + w.substr(i));
                    if (i < w.size())
                        next.push_back(w.substr(0, i) + static_cast<char>(c) + w.substr(i + 1));
                }
            }
        words.insert(edits.begin(), edits.end());
        edits.swap(next);
    }
    words.insert(edits.begin(), edits.end());
    std::uint64_t n = 0;
    for (auto& w : words) {
        ++n;
        if (!ctx.mine() || ctx.full())
            continue;
        auto describe = [&] { return mc::quote(w); };
        if (!ctx.beginN(n, describe))
            continue;
        ctx.expect(isReserved(w) == reserved(w), reserved(w) ? "is not reserved" : "is reserved");
        ctx.expect(isReserved(w.c_str()) == reserved(w), "differs as characters");
        ctx.step(2);
        ctx.state(w);
        ctx.outcome(reserved(w) ? "reserved" : "free");
        ctx.trace();
    }
}

SCENARIO("names", 8)
{
    // every name of the vocabulary, registries of every size, chains and cycles of every length
    std::vector<std::string> names;
    for (auto& v : vocabulary())
        if (!reserved(v))
            names.push_back(v);
    for (int i = 0; i < 30; ++i)
        names.push_back("Type" + std::to_string(i));
    for (std::size_t n = 1; n <= names.size(); ++n)
        for (int shape = 0; shape < 4; ++shape) {
            if (!ctx.mine() || ctx.full()
                || !ctx.begin(std::to_string(n) + (shape == 0 ? " types" : shape == 1 ? " types in a chain" : shape == 2
                                  ? " types in a cycle" : " types in a chain of unknown base")))
                continue;
            Registry r;
            auto of = [&](std::size_t i) {
                const std::string base = shape == 0 ? "object" : i + 1 < n ? names[i + 1] : shape == 1 ? "object" : shape == 2 ? names[0] : "Nowhere";
                return obj({ mem("m", num(std::to_string(i))) }).named(base).metaOf("id", str(names[i]));
            };
            for (std::size_t i = 0; i < n; ++i) {
                ctx.expect(!r.find(names[i]), mc::quote(names[i]) + " is there before it is added");
                ctx.expect(r.add(build(of(i))), mc::quote(names[i]) + " is refused");
                ctx.expect(!r.add(build(str("x").metaOf("id", str(names[i])))), mc::quote(names[i]) + " is added twice");
                ctx.step(3);
            }
            for (std::size_t i = 0; i < n; ++i) {
                ctx.expect(dump(r.find(names[i])) == dump(of(i)), mc::quote(names[i]) + " is " + dump(r.find(names[i])));
                const IElement* root = FindRootAncestor(names[i], r);
                if (shape == 0)
                    ctx.expect(root && root == r.find(names[i]), "the root of " + mc::quote(names[i]) + " is " + dump(root));
                else if (shape != 2)
                    ctx.expect(root && root == r.find(names[n - 1]), "the root of " + mc::quote(names[i]) + " is " + dump(root));
                else
                    ctx.expect(root != nullptr, "no root of " + mc::quote(names[i]));
                ctx.step(2);
            }
            for (std::size_t i = 0; i < n; i += 3) {
                ctx.expect(r.remove(names[i]) && !r.find(names[i]) && !r.remove(names[i]), mc::quote(names[i]) + " is not removed");
                for (std::size_t j = i + 1; j < n && j < i + 3; ++j)
                    ctx.expect(dump(r.find(names[j])) == dump(of(j)), "removing another changed " + mc::quote(names[j]));
                ctx.step(3);
            }
            ctx.state(std::to_string(n) + "/" + std::to_string(shape));
            ctx.trace();
        }
}

SCENARIO("sizes", 4)
{
    // registries of any size, names of any length
    std::vector<std::size_t> sizes;
    for (std::size_t n = 40; n < 300; n += 13)
        sizes.push_back(n);
    for (std::size_t n : { 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2050 })
        sizes.push_back(n);
    for (auto n : sizes)
        for (int shape = 0; shape < 4; ++shape) {
            static const char* SHAPES[] = { " types", " types in a chain", " types in a chain of unknown base", " letters" };
            if (!ctx.mine() || ctx.full() || !ctx.begin(std::to_string(n) + SHAPES[shape]))
                continue;
            Registry r;
            if (shape == 3) { // names that differ in their last letter, and from their beginning
                const std::string a = std::string(n, 'x') + "a", b = std::string(n, 'x') + "b", c = std::string(n, 'x');
                for (auto& name : { a, b, c })
                    ctx.expect(!r.find(name) && r.add(build(str(name).metaOf("id", str(name)))), mc::quote(name) + " is not added");
                for (auto& name : { a, b, c })
                    ctx.expect(dump(r.find(name)) == dump(str(name).metaOf("id", str(name))), mc::quote(name) + " is another");
                ctx.expect(!isReserved(a) && !r.find(c + "c"), "a name like it is taken");
                ctx.expect(r.remove(b) && !r.find(b) && r.find(a) && r.find(c), "not that name is removed");
                ctx.step(9);
                ctx.trace();
                continue;
            }
            auto name = [&](std::size_t i) { return "T" + std::to_string(i * 7919 % n) + "." + std::to_string(i); };
            auto of = [&](std::size_t i) {
                return obj({ mem("m", num(std::to_string(i))) })
                    .named(shape == 0 ? "object" : i + 1 < n ? name(i + 1) : shape == 1 ? "array" : "Nowhere")
                    .metaOf("id", str(name(i)));
            };
            for (std::size_t i = 0; i < n; ++i)
                ctx.expect(!r.find(name(i)) && r.add(build(of(i))), name(i) + " is not added");
            for (std::size_t i = 0; i < n; ++i) {
                ctx.expect(dump(r.find(name(i))) == dump(of(i)), name(i) + " is " + dump(r.find(name(i))));
                ctx.expect(!r.add(build(str("x").metaOf("id", str(name(i))))), name(i) + " is added twice");
                if (i % 37 == 0 || i + 3 > n) {
                    const IElement* root = FindRootAncestor(name(i), r);
                    ctx.expect(root && root == r.find(name(shape == 0 ? i : n - 1)), "the root of " + name(i) + " is " + dump(root));
                }
                ctx.step(3);
            }
            for (std::size_t i = 0; i < n; i += 2)
                ctx.expect(r.remove(name(i)) && !r.remove(name(i)), name(i) + " is not removed");
            for (std::size_t i = 0; i < n; ++i)
                ctx.expect(i % 2 ? dump(r.find(name(i))) == dump(of(i)) : !r.find(name(i)), name(i) + " is " + dump(r.find(name(i))));
            r.clear();
            for (std::size_t i = 0; i < n; ++i)
                ctx.expect(!r.find(name(i)), name(i) + " is left");
            ctx.state(std::to_string(n) + "/" + std::to_string(shape));
            ctx.trace();
        }
}

SCENARIO("ancestors", 8)
{
    // every graph of base types over some names
    const std::vector<std::string> names = ctx.thorough ? std::vector<std::string>{ "A", "B", "C", "D", "E" }
                                                        : std::vector<std::string>{ "A", "B", "C", "D" };
    std::vector<std::string> bases = names;
    bases.push_back("object");
    bases.push_back("Unknown");
    bases.push_back("generic"); // reserved, but no base type of the registry
    bases.push_back("-");       // the type is not registered
    std::vector<unsigned> at(names.size(), 0);
    std::uint64_t n = 0;
    for (;;) {
        ++n;
        auto describe = [&] {
            std::string o;
            for (std::size_t i = 0; i < names.size(); ++i)
                o += names[i] + ":" + bases[at[i]] + " ";
            return o;
        };
        if (ctx.mine() && !ctx.full() && ctx.beginN(n, describe)) {
            Registry r;
            std::map<std::string, std::string> base;
            for (std::size_t i = 0; i < names.size(); ++i)
                if (bases[at[i]] != "-") {
                    base[names[i]] = bases[at[i]];
                    r.add(build(obj({ mem(names[i], str("1")) }).named(bases[at[i]]).metaOf("id", str(names[i]))));
                }
            for (auto& q : { std::string("A"), std::string("B"), names.back(), std::string("Unknown"), std::string("object"),
                     std::string("generic") }) {
                std::string want = "-";
                std::set<std::string> cycle; // any type of it will do
                if (base.count(q)) {
                    std::set<std::string> seen;
                    std::string at = q;
                    for (;;) {
                        seen.insert(at);
                        want = at;
                        const std::string next = base[at];
                        if (reserved(next) || !base.count(next))
                            break;
                        if (seen.count(next)) {
                            for (std::string c = next; cycle.insert(c).second; c = base[c])
                                ;
                            break;
                        }
                        at = next;
                    }
                } else if (q == "object")
                    want = q;
                const IElement* e = FindRootAncestor(q, r);
                const IElement* exp = want == "-" ? nullptr : r.find(want);
                bool ok = e == exp;
                for (auto& c : cycle)
                    ok = ok || e == r.find(c);
                ctx.expect(ok, "the root of " + q + " is " + dump(e) + ", expected " + want);
                ctx.step();
                ctx.outcome(q + want);
            }
            ctx.state(describe());
            ctx.trace();
        }
        std::size_t i = 0;
        while (i < at.size() && ++at[i] == bases.size())
            at[i++] = 0;
        if (i == at.size())
            break;
    }
}

MC_MAIN
