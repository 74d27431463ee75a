// C09: attributes and meta are ordered maps of unique keys to elements they own.
#include "elems.hpp"
#include "histories.hpp"
#include "refract/InfoElementsUtils.h"

using namespace em;

namespace
{
    const std::vector<std::string> KEYS{ "a", "b", "" };

    struct Op {
        enum Kind { SetPtr, SetRef, SetOwn, SetOther, Erase, EraseAt, Claim, ClaimAt, ClaimSet, Clear, Copy, Move, Swap, Self, Clone, ViaRef } kind
            = Clear;
        int map = 0;
        std::string key;
        int value = 0;
        std::size_t at = 0;
        std::string from;
    };

    std::string show(const Op& o)
    {
        static const char* n[] = { "set", "set-copy", "set-own", "set-other", "erase", "erase-at", "claim", "claim-at", "claim-set",
            "clear", "copy", "move", "swap", "self-assign", "clone", "change" };
        return std::string(o.map ? "B." : "A.") + n[o.kind] + "(" + mc::quote(o.key) + "," + std::to_string(o.value) + ","
            + std::to_string(o.at) + "," + mc::quote(o.from) + ")";
    }

    std::vector<Val> values;

    struct World {
        bool live;
        Info ref[2];
        std::unique_ptr<InfoElements> real[2];
        std::string problem;

        explicit World(bool l) : live(l)
        {
            if (live)
                for (auto& r : real)
                    r.reset(new InfoElements());
        }

        World model() const
        {
            World w(false);
            w.ref[0] = ref[0];
            w.ref[1] = ref[1];
            return w;
        }

        static Info::iterator find(Info& i, const std::string& k)
        {
            return std::find_if(i.begin(), i.end(), [&](const Info::value_type& e) { return e.first == k; });
        }
        static bool has(const Info& i, const std::string& k)
        {
            return find(const_cast<Info&>(i), k) != i.end();
        }
        static void put(Info& i, const std::string& k, const Val& v)
        {
            auto it = find(i, k);
            if (it == i.end())
                i.emplace_back(k, v);
            else
                it->second = v;
        }

        std::string key() const
        {
            return dump(ref[0]) + " | " + dump(ref[1]);
        }

        std::vector<Op> moves() const
        {
            std::vector<Op> o;
            for (int m = 0; m < 2; ++m) {
                for (auto& k : KEYS) {
                    for (int v = 0; v < static_cast<int>(values.size()); ++v) {
                        o.push_back(Op{ Op::SetPtr, m, k, v });
                        o.push_back(Op{ Op::SetRef, m, k, v });
                    }
                    for (auto& f : KEYS) {
                        if (has(ref[m], f)) {
                            o.push_back(Op{ Op::SetOwn, m, k, 0, 0, f });
                            o.push_back(Op{ Op::ClaimSet, m, k, 0, 0, f });
                        }
                        if (has(ref[1 - m], f))
                            o.push_back(Op{ Op::SetOther, m, k, 0, 0, f });
                    }
                    o.push_back(Op{ Op::Erase, m, k });
                    o.push_back(Op{ Op::Claim, m, k });
                    if (has(ref[m], k))
                        o.push_back(Op{ Op::ViaRef, m, k });
                }
                for (std::size_t i = 0; i < ref[m].size(); ++i) {
                    o.push_back(Op{ Op::EraseAt, m, "", 0, i });
                    o.push_back(Op{ Op::ClaimAt, m, "", 0, i });
                }
                bool disjoint = true;
                for (auto& e : ref[1 - m])
                    disjoint = disjoint && !has(ref[m], e.first);
                for (auto k : { Op::Clear, Op::Copy, Op::Move, Op::Swap, Op::Self })
                    o.push_back(Op{ k, m });
                if (disjoint)
                    o.push_back(Op{ Op::Clone, m });
            }
            return o;
        }

        void expect(bool ok, const std::string& what)
        {
            if (!ok && problem.empty())
                problem = what;
        }

        void apply(const Op& o)
        {
            Info &r = ref[o.map], &q = ref[1 - o.map];
            InfoElements *x = real[o.map].get(), *y = real[1 - o.map].get();
            switch (o.kind) {
                case Op::SetPtr:
                    put(r, o.key, values[o.value]);
                    if (live) {
                        auto e = build(values[o.value]);
                        IElement* p = e.get();
                        IElement& back = x->set(o.key, std::move(e));
                        expect(&back == p, "set() does not give back the element stored");
                    }
                    break;
                case Op::SetRef:
                    put(r, o.key, values[o.value]);
                    if (live) {
                        auto e = build(values[o.value]);
                        IElement& back = x->set(o.key, static_cast<const IElement&>(*e));
                        expect(&back != e.get(), "set() stores the element it was to copy");
                    }
                    break;
                case Op::SetOwn: {
                    const Val v = find(r, o.from)->second;
                    put(r, o.key, v);
                    if (live)
                        x->set(o.key, static_cast<const IElement&>(*x->find(o.from)->second));
                    break;
                }
                case Op::SetOther: {
                    put(r, o.key, find(q, o.from)->second);
                    if (live)
                        x->set(o.key, static_cast<const IElement&>(*y->find(o.from)->second));
                    break;
                }
                case Op::ClaimSet: {
                    const Val v = find(r, o.from)->second;
                    r.erase(find(r, o.from));
                    put(r, o.key, v);
                    if (live)
                        x->set(o.key, x->claim(o.from));
                    break;
                }
                case Op::Erase:
                    if (has(r, o.key))
                        r.erase(find(r, o.key));
                    if (live)
                        x->erase(o.key);
                    break;
                case Op::EraseAt:
                    r.erase(r.begin() + o.at);
                    if (live)
                        x->erase(x->begin() + o.at);
                    break;
                case Op::Claim: {
                    const bool there = has(r, o.key);
                    const std::string want = there ? dump(find(r, o.key)->second) : "<none>";
                    if (there)
                        r.erase(find(r, o.key));
                    if (live) {
                        auto e = x->claim(o.key);
                        expect(dump(e.get()) == want, "claimed " + dump(e.get()) + ", expected " + want);
                    }
                    break;
                }
                case Op::ClaimAt: {
                    const std::string want = dump(r[o.at].second);
                    r.erase(r.begin() + o.at);
                    if (live) {
                        auto e = x->claim(x->begin() + o.at);
                        expect(dump(e.get()) == want, "claimed " + dump(e.get()) + ", expected " + want);
                    }
                    break;
                }
                case Op::Clear:
                    r.clear();
                    if (live)
                        x->clear();
                    break;
                case Op::Copy:
                    r = q;
                    if (live)
                        *x = *y;
                    break;
                case Op::Move:
                    r = q;
                    q.clear();
                    if (live) {
                        *x = std::move(*y);
                        real[1 - o.map].reset(new InfoElements());
                    }
                    break;
                case Op::Swap:
                    std::swap(r, q);
                    if (live) {
                        using std::swap;
                        swap(*x, *y);
                    }
                    break;
                case Op::Self:
                    if (live) {
                        InfoElements& alias = *x;
                        *x = alias;
                    }
                    break;
                case Op::Clone:
                    r.insert(r.end(), q.begin(), q.end());
                    if (live)
                        x->clone(*y);
                    break;
                case Op::ViaRef: {
                    // change the stored element through the map: another copy of it must not change
                    Val& v = find(r, o.key)->second;
                    v.name = v.name == "Changed" ? defaultName(v.kind) : "Changed";
                    if (live)
                        x->find(o.key)->second->element(v.name);
                    break;
                }
            }
        }

        void check()
        {
            if (!live)
                return;
            for (int m = 0; m < 2; ++m) {
                const InfoElements& x = *real[m];
                const std::string want = dump(ref[m]), got = dump(read(x));
                expect(got == want, std::string(m ? "B" : "A") + " is " + got + ", expected " + want);
                expect(x.size() == ref[m].size() && x.empty() == ref[m].empty()
                        && static_cast<std::size_t>(std::distance(x.begin(), x.end())) == ref[m].size(),
                    "the size is wrong");
                for (auto& k : KEYS) {
                    auto it = find(ref[m], k);
                    auto jt = x.find(k);
                    auto kt = real[m]->find(k);
                    expect((jt == x.end()) == (it == ref[m].end()) && (kt == real[m]->end()) == (it == ref[m].end()),
                        "presence of " + mc::quote(k));
                    if (jt != x.end() && it != ref[m].end())
                        expect(jt->first == k && jt - x.begin() == it - ref[m].begin(), "place of " + mc::quote(k));
                }
            }
        }
    };

    World make(bool live)
    {
        return World(live);
    }
}

SCENARIO("maps", 8)
{
    // all states of two maps over three keys
    values = { str("1"), arr({ Val(Number).attr("x", null()) }) };
    if (ctx.thorough)
        values.push_back(Val(Object));
    mc::histories<World, Op>(ctx, make, [](const Op& o) { return show(o); }, ctx.thorough ? 5 : 4);
}

SCENARIO("sizes", 8)
{
    // maps of every size over all the keys the code knows and more: each entry found, replaced, erased and claimed
    std::vector<std::string> keys = vocabulary();
    for (int i = 0; i < 300; ++i)
        keys.push_back("key" + std::to_string(i));
    auto show = [](const InfoElements& i) { return dump(read(i)); };
    for (std::size_t rot = 0; rot < keys.size(); rot += rot < 100 ? 1 : 61)
        for (std::size_t n = 1; n <= keys.size(); n += n < 9 ? 1 : n < 80 ? 16 : rot % 50 ? keys.size() : 67) {
            if (!ctx.mine() || ctx.full())
                continue;
            if (!ctx.begin(std::to_string(n) + " keys from " + mc::quote(keys[rot])))
                continue;
            Info want;
            InfoElements ie;
            for (std::size_t i = 0; i < n; ++i) {
                const std::string& k = keys[(rot + i) % keys.size()];
                want.emplace_back(k, num(std::to_string(i)));
                ie.set(k, build(want.back().second));
            }
            ctx.expect(show(ie) == dump(want), "is " + show(ie));
            ctx.expect(ie.size() == n && !ie.empty(), "has another size");
            ctx.state(dump(want));
            for (std::size_t i = 0; i < n; ++i) {
                const std::string& k = want[i].first;
                ctx.expect(ie.find(k) - ie.begin() == static_cast<long>(i), "finds another " + mc::quote(k));
                InfoElements a(ie);
                Info w = want;
                auto& set = a.set(k, build(str("new")));
                w[i].second = str("new");
                ctx.expect(dump(set) == dump(str("new")) && show(a) == dump(w), "with another " + mc::quote(k) + " is " + show(a));
                w.erase(w.begin() + i);
                InfoElements b(ie), c(ie), d(ie);
                b.erase(k);
                ctx.expect(show(b) == dump(w), "without " + mc::quote(k) + " is " + show(b));
                auto got = c.claim(k);
                ctx.expect(got && dump(*got) == dump(want[i].second) && show(c) == dump(w), "with " + mc::quote(k) + " claimed is " + show(c));
                d.erase(d.begin() + i);
                ctx.expect(show(d) == dump(w) && d.find(k) == d.end(), "without entry " + std::to_string(i) + " is " + show(d));
                c.set(k, std::move(got));
                w.push_back(want[i]);
                ctx.expect(show(c) == dump(w), "with " + mc::quote(k) + " put back is " + show(c));
                ctx.step(6);
            }
            ctx.expect(show(ie) == dump(want), "changed with its copies to " + show(ie));
            ctx.outcome(dump(want));
            ctx.trace();
        }
}

namespace
{
    template <typename Container, typename D>
    void append(mc::Ctx& ctx, InfoElements& ie, std::vector<Val>& want, bool& there, const D& d, const Val& v)
    {
        AppendInfoElement<Container>(ie, "k", D(d));
        there = true;
        bool found = false;
        for (auto& w : want)
            found = found || (w.kind == v.kind && w.has && w.text == v.text);
        if (!found)
            want.push_back(v);
        ctx.step();
    }
}

SCENARIO("appending", 2)
{
    // every sequence of appended values, from nothing, an element without value, an empty one, or one with entries
    const std::vector<std::vector<Val> > starts{ {}, { str("a") }, { str("b"), Val(Array) }, { num("1"), str("") },
        { boolean(true), Val(Boolean), str("true") }, { null(), arr({ str("a") }) }, { str("a").named("X"), mem("a", str("a")) } };
    const std::vector<Val> words{ str("a"), str("b"), str(""), str("true"), str(std::string(1, '\0')), str("aa") };
    const unsigned depth = ctx.thorough ? 5 : 4;
    for (std::size_t s = 0; s < starts.size() + 2; ++s)
        for (unsigned len = 1; len <= depth; ++len) {
            std::vector<unsigned> at(len, 0);
            for (;;) {
                if (ctx.mine() && !ctx.full()) {
                    std::string id = s == 0 ? "no entry" : s == 1 ? "an entry without value" : dump(arr(starts[s - 2]));
                    for (auto w : at)
                        id += " + " + dump(words[w]);
                    if (ctx.begin(id)) {
                        InfoElements ie;
                        ie.set("other", build(str("x")));
                        std::vector<Val> want;
                        bool there = s != 0;
                        Val first = Val(Array);
                        if (s >= 2)
                            first = arr(starts[s - 2]);
                        if (s)
                            ie.set("k", build(first));
                        want = first.kids;
                        for (auto w : at) {
                            const Val& v = words[w];
                            append<ArrayElement>(ctx, ie, want, there, dsd::String(v.text), v);
                        }
                        const Info exp{ { "other", str("x") }, { "k", arr(want) } };
                        const std::string got = dump(read(ie));
                        ctx.expect(got == dump(exp), "gives " + got + ", expected " + dump(exp));
                        ctx.state(got);
                        ctx.outcome(got);
                        ctx.trace();
                        ctx.sample(id);
                    }
                }
                unsigned i = 0;
                while (i < len && ++at[i] == words.size())
                    at[i++] = 0;
                if (i == len)
                    break;
            }
        }
}

MC_MAIN
