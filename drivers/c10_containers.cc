// C10: the values that hold other elements are ordered sequences (or slots) that own what they hold.
#include "elems.hpp"
#include "histories.hpp"

using namespace em;

namespace
{
    struct Op {
        enum Kind { Insert, PushBack, Erase, EraseRange, Clear, Copy, Move, Swap, Self, CopyCtor, Transfer, Change, AddMember } kind
            = Clear;
        int side = 0;
        std::size_t at = 0, to = 0;
        int value = 0;
    };

    std::string show(const Op& o)
    {
        static const char* n[] = { "insert", "push_back", "erase", "erase-range", "clear", "copy", "move", "swap", "self-assign",
            "copy-construct", "transfer", "change", "addMember" };
        return std::string(o.side ? "B." : "A.") + n[o.kind] + "(" + std::to_string(o.at) + "," + std::to_string(o.to) + ","
            + std::to_string(o.value) + ")";
    }

    // entries as elements of the type the container holds
    template <typename D>
    struct Entry {
        static std::unique_ptr<IElement> make(const Val& v)
        {
            return build(v);
        }
    };
    template <>
    struct Entry<dsd::Select> {
        static std::unique_ptr<OptionElement> make(const Val& v)
        {
            return std::unique_ptr<OptionElement>(static_cast<OptionElement*>(build(v).release()));
        }
    };

    template <typename D>
    std::string content(const D& d)
    {
        std::string o;
        for (const auto& e : d)
            o += dump(e.get()) + ";";
        return o;
    }
    std::string content(const std::vector<Val>& d)
    {
        std::string o;
        for (const auto& e : d)
            o += dump(e) + ";";
        return o;
    }

    std::string keyOf(const Val& v)
    {
        if (v.kind == Member && v.has && !v.kids.empty() && v.kids[0].kind == String && v.kids[0].has)
            return "=" + v.kids[0].text;
        return "";
    }

    template <typename D>
    struct Special {
        static const bool object = false;
        static void addMember(D&, const Val&) {}
        static bool find(D&, const std::string&, std::size_t)
        {
            return true;
        }
    };
    template <>
    struct Special<dsd::Object> {
        static const bool object = true;
        static void addMember(dsd::Object& d, const Val& v)
        {
            auto it = d.addMember(v.kids[0].text, build(v.kids[1]));
            if (it != d.end() - 1)
                throw std::string("addMember() does not give back the new member");
        }
        static bool find(dsd::Object& d, const std::string& k, std::size_t at)
        {
            return static_cast<std::size_t>(d.find(k) - d.begin()) == at;
        }
    };

    template <typename D>
    struct World {
        bool live;
        const std::vector<Val>& values;
        std::size_t max;
        std::vector<Val> ref[2];
        std::unique_ptr<D> real[2];
        std::string problem;

        World(bool l, const std::vector<Val>& v, std::size_t m) : live(l), values(v), max(m)
        {
            if (live)
                for (auto& r : real)
                    r.reset(new D());
        }

        World model() const
        {
            World w(false, values, max);
            w.ref[0] = ref[0];
            w.ref[1] = ref[1];
            return w;
        }

        std::string key() const
        {
            return content(ref[0]) + " | " + content(ref[1]);
        }

        std::vector<Op> moves() const
        {
            std::vector<Op> o;
            for (int m = 0; m < 2; ++m) {
                const std::size_t n = ref[m].size();
                for (int v = 0; v < static_cast<int>(values.size()); ++v) {
                    if (n < max) {
                        for (std::size_t i = 0; i <= n; ++i)
                            o.push_back(Op{ Op::Insert, m, i, 0, v });
                    }
                    if (n < max || Special<D>::object)
                        o.push_back(Op{ Op::PushBack, m, 0, 0, v });
                    if (Special<D>::object && !keyOf(values[v]).empty())
                        o.push_back(Op{ Op::AddMember, m, 0, 0, v });
                }
                for (std::size_t i = 0; i < n; ++i) {
                    o.push_back(Op{ Op::Erase, m, i });
                    if (ref[1 - m].size() < max)
                        o.push_back(Op{ Op::Transfer, m, i });
                    o.push_back(Op{ Op::Change, m, i });
                }
                for (std::size_t i = 0; i <= n; ++i)
                    for (std::size_t j = i; j <= n; ++j)
                        o.push_back(Op{ Op::EraseRange, m, i, j });
                for (auto k : { Op::Clear, Op::Copy, Op::Move, Op::Swap, Op::Self, Op::CopyCtor })
                    o.push_back(Op{ k, m });
            }
            // keep the model finite
            std::vector<Op> kept;
            for (auto& x : o) {
                if (x.kind == Op::PushBack || x.kind == Op::AddMember) {
                    std::vector<Val> r = ref[x.side];
                    push(r, values[x.value], x.kind == Op::AddMember);
                    if (r.size() > max)
                        continue;
                }
                kept.push_back(x);
            }
            return kept;
        }

        static void push(std::vector<Val>& r, const Val& v, bool)
        {
            if (Special<D>::object && !keyOf(v).empty())
                for (auto it = r.begin(); it != r.end(); ++it)
                    if (keyOf(*it) == keyOf(v)) {
                        r.erase(it);
                        break;
                    }
            r.push_back(v);
        }

        void expect(bool ok, const std::string& what)
        {
            if (!ok && problem.empty())
                problem = what;
        }

        void apply(const Op& o)
        {
            auto &r = ref[o.side], &q = ref[1 - o.side];
            D *x = real[o.side].get(), *y = real[1 - o.side].get();
            const Val v = values[o.value];
            switch (o.kind) {
                case Op::Insert:
                    r.insert(r.begin() + o.at, v);
                    if (live) {
                        auto e = Entry<D>::make(v);
                        auto p = e.get();
                        auto it = x->insert(x->begin() + o.at, std::move(e));
                        expect(it == x->begin() + o.at && it->get() == p, "insert() does not give back the new entry");
                    }
                    break;
                case Op::PushBack:
                    push(r, v, false);
                    if (live) {
                        auto e = Entry<D>::make(v);
                        auto p = e.get();
                        x->push_back(std::move(e));
                        expect((x->end() - 1)->get() == p, "the new entry is not the last one");
                    }
                    break;
                case Op::AddMember: {
                    Val plain = mem(v.kids[0].text, v.kids[1]);
                    push(r, plain, true);
                    if (live)
                        try {
                            Special<D>::addMember(*x, v);
                        } catch (const std::string& e) {
                            expect(false, e);
                        }
                    break;
                }
                case Op::Erase:
                    r.erase(r.begin() + o.at);
                    if (live) {
                        auto it = x->erase(x->begin() + o.at);
                        expect(it == x->begin() + o.at, "erase() does not give back the next entry");
                    }
                    break;
                case Op::EraseRange:
                    r.erase(r.begin() + o.at, r.begin() + o.to);
                    if (live) {
                        auto it = x->erase(x->begin() + o.at, x->begin() + o.to);
                        expect(it == x->begin() + o.at, "erase() does not give back the next entry");
                    }
                    break;
                case Op::Transfer: {
                    // the entry itself goes over to the other one
                    const Val e = r[o.at];
                    r.erase(r.begin() + o.at);
                    q.insert(q.begin(), e);
                    if (live) {
                        auto p = std::move(*(x->begin() + o.at));
                        x->erase(x->begin() + o.at);
                        y->insert(y->begin(), std::move(p));
                    }
                    break;
                }
                case Op::Change: {
                    Val& e = r[o.at];
                    e.name = e.name == "Changed" ? defaultName(e.kind) : "Changed";
                    if (live)
                        (*(x->begin() + o.at))->element(e.name);
                    break;
                }
                case Op::Clear:
                    r.clear();
                    if (live)
                        x->clear();
                    break;
                case Op::Copy:
                    r = q;
                    if (live)
                        *x = *y;
                    break;
                case Op::CopyCtor:
                    r = q;
                    if (live)
                        real[o.side].reset(new D(*y));
                    break;
                case Op::Move:
                    r = q;
                    q.clear();
                    if (live) {
                        *x = std::move(*y);
                        real[1 - o.side].reset(new D());
                    }
                    break;
                case Op::Swap:
                    std::swap(r, q);
                    if (live) {
                        using std::swap;
                        swap(*x, *y);
                    }
                    break;
                case Op::Self:
                    if (live) {
                        D& alias = *x;
                        *x = alias;
                    }
                    break;
            }
        }

        void check()
        {
            if (!live)
                return;
            for (int m = 0; m < 2; ++m) {
                const D& x = *real[m];
                const std::string want = content(ref[m]), got = content(x);
                expect(got == want, std::string(m ? "B" : "A") + " is " + got + ", expected " + want);
                expect(x.size() == ref[m].size() && x.empty() == ref[m].empty(), "the size is wrong");
                for (auto k : { "a", "b", "", "z" }) {
                    std::size_t at = 0;
                    while (at < ref[m].size() && keyOf(ref[m][at]) != std::string("=") + k)
                        ++at;
                    expect(Special<D>::find(*real[m], k, at), std::string("find(") + k + ") in " + got);
                }
            }
            expect((*real[0] == *real[1]) == same(), "equality of A and B");
        }

        // as the entries' names do not count in a comparison
        bool same() const
        {
            auto plain = [](std::vector<Val> r) {
                for (auto& v : r)
                    v.name = defaultName(v.kind);
                return content(r);
            };
            return plain(ref[0]) == plain(ref[1]);
        }
    };

    template <typename D>
    void run(mc::Ctx& ctx, const std::vector<Val>& values, std::size_t max)
    {
        mc::histories<World<D>, Op>(ctx, [&](bool live) { return World<D>(live, values, max); },
            [](const Op& o) { return show(o); }, ctx.thorough ? 7 : max == 2 ? 5 : 4);
    }
}

SCENARIO("array", 8)
{
    run<dsd::Array>(ctx, { str("a"), arr({ num("1") }) }, ctx.thorough ? 4 : 3);
}
SCENARIO("extend", 8)
{
    run<dsd::Extend>(ctx, { str("a"), str("b").attr("x", null()) }, ctx.thorough ? 4 : 3);
}
SCENARIO("option", 8)
{
    run<dsd::Option>(ctx, { mem("a", str("1")), ref("R") }, ctx.thorough ? 4 : 3);
}
SCENARIO("select", 8)
{
    run<dsd::Select>(
        ctx, { Val(Option, std::vector<Val>{ mem("a", str("1")) }), Val(Option) }, ctx.thorough ? 4 : 3);
}
SCENARIO("object", 8)
{
    run<dsd::Object>(
        ctx, { mem("a", str("1")), mem("b", Val(Number)), mem("a", num("2")) }, ctx.thorough ? 3 : 2);
}
SCENARIO("object-other", 8)
{
    // members without a plain name, and entries that are no members
    run<dsd::Object>(ctx,
        { mem("", str("1")), Val(Member), mem(num("1"), str("a")), ref("a"),
            Val(Select, std::vector<Val>{ Val(Option, std::vector<Val>{ mem("a", str("1")) }) }) },
        2);
}
namespace
{
    template <typename D>
    void sizes(mc::Ctx& ctx, const std::vector<Val>& values)
    {
        for (std::size_t n = 1; n <= values.size(); n += n < 20 ? 1 : n < 70 ? 7 : values.size() - n < 4 ? 1 : 61) {
            if (!ctx.mine() || ctx.full() || !ctx.begin(std::to_string(n) + " entries"))
                continue;
            std::vector<Val> want(values.begin(), values.begin() + n);
            D d;
            for (auto& v : want)
                d.push_back(Entry<D>::make(v));
            ctx.expect(content(d) == content(want) && d.size() == n, "is " + content(d));
            for (std::size_t i = 0; i <= n; i += n < 71 || i < 2 || i + 3 > n ? 1 : (n - i) / 3 + 1) {
                D a(d), b(d), c(d);
                auto w = want;
                if (n < values.size()) {
                    auto it = a.insert(a.begin() + i, Entry<D>::make(values[n]));
                    w.insert(w.begin() + i, values[n]);
                    ctx.expect(it - a.begin() == static_cast<long>(i) && content(a) == content(w), "with one inserted at " + std::to_string(i) + " is " + content(a));
                }
                if (i < n) {
                    w = want;
                    w.erase(w.begin() + i);
                    auto it = b.erase(b.begin() + i);
                    ctx.expect(it - b.begin() == static_cast<long>(i) && content(b) == content(w), "without entry " + std::to_string(i) + " is " + content(b));
                }
                w.assign(want.begin() + i, want.end());
                c.erase(c.begin(), c.begin() + i);
                ctx.expect(content(c) == content(w), "without the first " + std::to_string(i) + " is " + content(c));
                ctx.step(3);
            }
            ctx.expect(content(d) == content(want), "changed with its copies to " + content(d));
            ctx.state(content(d));
            ctx.trace();
        }
    }
}

SCENARIO("sizes", 8)
{
    std::vector<Val> entries, options, members;
    for (int i = 0; i < 520; ++i) {
        entries.push_back(i % 2 ? str(std::to_string(i)) : num(std::to_string(i)));
        options.push_back(Val(Option, std::vector<Val>{ entries.back() }));
        members.push_back(mem("k" + std::to_string(i), entries.back()));
    }
    sizes<dsd::Array>(ctx, entries);
    sizes<dsd::Extend>(ctx, entries);
    sizes<dsd::Option>(ctx, members);
    sizes<dsd::Select>(ctx, options);
    sizes<dsd::Object>(ctx, members);
}

SCENARIO("member-names", 8)
{
    // an object of as many members as there are names: each replaced, added again, looked up
    std::vector<std::string> names = vocabulary();
    for (int i = 0; i < 12; ++i)
        names.push_back("name" + std::to_string(i));
    std::vector<Val> want;
    for (auto& k : names)
        want.push_back(mem(k, str("v" + k)));
    for (std::size_t i = 0; i < names.size(); ++i)
        for (std::size_t n = 1; n <= names.size(); n += n < 4 ? 1 : 9) {
            if (!ctx.mine() || ctx.full() || !ctx.begin(std::to_string(n) + " members from " + mc::quote(names[i])))
                continue;
            std::vector<Val> w;
            dsd::Object o;
            for (std::size_t j = 0; j < n; ++j) {
                w.push_back(want[(i + j) % want.size()]);
                o.push_back(build(w.back()));
            }
            ctx.expect(content(o) == content(w), "is " + content(o));
            for (std::size_t j = 0; j < n; ++j) {
                const std::string& k = w[j].kids[0].text;
                ctx.expect(o.find(k) - o.begin() == static_cast<long>(j), "finds another " + mc::quote(k));
                auto x = w;
                x.erase(x.begin() + j);
                x.push_back(mem(k, num("1")));
                dsd::Object a(o), b(o);
                a.push_back(build(x.back()));
                ctx.expect(content(a) == content(x), "with " + mc::quote(k) + " added again is " + content(a));
                b.addMember(k, build(num("1")));
                ctx.expect(content(b) == content(x), "with a member " + mc::quote(k) + " is " + content(b));
                ctx.step(3);
            }
            ctx.expect(o.find("none") == o.end() && o.find("nam") == o.end(), "finds what is not there");
            ctx.state(content(o));
            ctx.trace();
        }
}

SCENARIO("object-wide", 8)
{
    // every sequence of additions to one object
    const std::vector<Val> values{ mem("a", str("1")), mem("a", num("2")), mem("b", Val(String)), mem("", null()),
        mem(Val(String), str("x")), Val(Member), mem(str("b").named("X"), arr()) };
    const unsigned depth = ctx.thorough ? 6 : 5;
    std::uint64_t n = 0;
    for (unsigned len = 1; len <= depth; ++len) {
        std::vector<unsigned> at(len, 0);
        for (;;) {
            ++n;
            if (ctx.mine() && !ctx.full()) {
                auto describe = [&] {
                    std::string id;
                    for (auto a : at)
                        id += dump(values[a]) + "; ";
                    return id;
                };
                if (ctx.beginN(n, describe)) {
                    dsd::Object o;
                    std::vector<Val> want;
                    for (auto a : at) {
                        o.push_back(build(values[a]));
                        World<dsd::Object>::push(want, values[a], false);
                        ctx.step();
                    }
                    ctx.expect(content(o) == content(want), "gives " + content(o) + ", expected " + content(want));
                    ctx.state(content(want));
                    ctx.outcome(content(want));
                    ctx.trace();
                }
            }
            unsigned i = 0;
            while (i < len && ++at[i] == values.size())
                at[i++] = 0;
            if (i == len)
                break;
        }
    }
}

namespace
{
    // slots: a member's key and value, an enum's and a holder's element
    struct Slot {
        std::string key, value; // "" for none
        bool operator==(const Slot& o) const
        {
            return key == o.key && value == o.value;
        }
    };

    struct SlotOp {
        enum Kind { Make, MakeNamed, SetValue, Unset, Claim, Copy, Move, Swap, Self, CopyCtor, MoveCtor, Change } kind = Make;
        int side = 0, key = 0, value = 0;
    };

    std::string show(const SlotOp& o)
    {
        static const char* n[] = { "make", "make-named", "value", "unset", "claim", "copy", "move", "swap", "self-assign",
            "copy-construct", "move-construct", "change" };
        return std::string(o.side ? "B." : "A.") + n[o.kind] + "(" + std::to_string(o.key) + "," + std::to_string(o.value) + ")";
    }

    const std::vector<Val> SLOTS{ str("a"), obj({ mem("x", num("1")) }), Val(Number) };

    std::unique_ptr<IElement> slot(int i)
    {
        return i < 0 ? nullptr : build(SLOTS[i]);
    }

    template <typename D>
    struct SlotOf;
    template <>
    struct SlotOf<dsd::Member> {
        static const bool pair = true;
        static dsd::Member* make(int k, int v)
        {
            return new dsd::Member(slot(k), slot(v));
        }
        static const IElement* key(const dsd::Member& d)
        {
            return d.key();
        }
        static const IElement* value(const dsd::Member& d)
        {
            if (const_cast<dsd::Member&>(d).value() != d.value())
                std::abort();
            return d.value();
        }
        static void set(dsd::Member& d, int v)
        {
            d.value(slot(v));
        }
    };
    template <>
    struct SlotOf<dsd::Enum> {
        static const bool pair = false;
        static dsd::Enum* make(int, int v)
        {
            return v < 0 ? new dsd::Enum() : new dsd::Enum(slot(v));
        }
        static const IElement* key(const dsd::Enum&)
        {
            return nullptr;
        }
        static const IElement* value(const dsd::Enum& d)
        {
            return d.value();
        }
        static void set(dsd::Enum& d, int v)
        {
            d = dsd::Enum(slot(v));
        }
    };
    template <>
    struct SlotOf<dsd::Holder> {
        static const bool pair = false;
        static dsd::Holder* make(int, int v)
        {
            return v < 0 ? new dsd::Holder() : new dsd::Holder(slot(v));
        }
        static const IElement* key(const dsd::Holder&)
        {
            return nullptr;
        }
        static const IElement* value(const dsd::Holder& d)
        {
            return d.data();
        }
        static void set(dsd::Holder& d, int v)
        {
            d = dsd::Holder(slot(v));
        }
    };

    template <typename D>
    struct SlotWorld {
        bool live;
        Slot ref[2];
        std::unique_ptr<D> real[2];
        std::string problem;

        explicit SlotWorld(bool l) : live(l)
        {
            ref[0] = ref[1] = Slot{ "<none>", "<none>" };
            if (live)
                for (auto& r : real)
                    r.reset(new D());
        }
        SlotWorld model() const
        {
            SlotWorld w(false);
            w.ref[0] = ref[0];
            w.ref[1] = ref[1];
            return w;
        }
        std::string key() const
        {
            return ref[0].key + "=" + ref[0].value + " | " + ref[1].key + "=" + ref[1].value;
        }
        std::vector<SlotOp> moves() const
        {
            std::vector<SlotOp> o;
            const int n = static_cast<int>(SLOTS.size());
            for (int m = 0; m < 2; ++m) {
                for (int k = SlotOf<D>::pair ? -1 : 0; k < (SlotOf<D>::pair ? n : 1); ++k)
                    for (int v = -1; v < n; ++v)
                        o.push_back(SlotOp{ SlotOp::Make, m, k, v });
                for (int v = 0; v < n; ++v)
                    o.push_back(SlotOp{ SlotOp::SetValue, m, 0, v });
                for (auto k : { SlotOp::Unset, SlotOp::Claim, SlotOp::Copy, SlotOp::Move, SlotOp::Swap, SlotOp::Self,
                         SlotOp::CopyCtor, SlotOp::MoveCtor })
                    o.push_back(SlotOp{ k, m });
            }
            return o;
        }
        void expect(bool ok, const std::string& what)
        {
            if (!ok && problem.empty())
                problem = what;
        }
        static std::string text(int i)
        {
            return i < 0 ? "<none>" : dump(SLOTS[i]);
        }
        void apply(const SlotOp& o)
        {
            Slot &r = ref[o.side], &q = ref[1 - o.side];
            auto &x = real[o.side], &y = real[1 - o.side];
            using S = SlotOf<D>;
            switch (o.kind) {
                case SlotOp::Make:
                    r = Slot{ S::pair ? text(o.key) : "<none>", text(o.value) };
                    if (live)
                        x.reset(S::make(o.key, o.value));
                    break;
                case SlotOp::SetValue:
                    r.value = text(o.value);
                    if (live)
                        S::set(*x, o.value);
                    break;
                case SlotOp::Unset:
                    r.value = "<none>";
                    if (live)
                        S::set(*x, -1);
                    break;
                case SlotOp::Claim: {
                    const std::string want = r.value;
                    r.value = "<none>";
                    if (live) {
                        const IElement* p = S::value(*x);
                        auto e = x->claim();
                        expect(e.get() == p && dump(e.get()) == want, "claimed " + dump(e.get()) + ", expected " + want);
                    }
                    break;
                }
                case SlotOp::Copy:
                    r = q;
                    if (live)
                        *x = *y;
                    break;
                case SlotOp::CopyCtor:
                    r = q;
                    if (live)
                        x.reset(new D(*y));
                    break;
                case SlotOp::Move:
                    r = q;
                    q = Slot{ "<none>", "<none>" };
                    if (live) {
                        *x = std::move(*y);
                        y.reset(new D());
                    }
                    break;
                case SlotOp::MoveCtor:
                    r = q;
                    q = Slot{ "<none>", "<none>" };
                    if (live) {
                        x.reset(new D(std::move(*y)));
                        y.reset(new D());
                    }
                    break;
                case SlotOp::Swap:
                    std::swap(r, q);
                    if (live) {
                        using std::swap;
                        swap(*x, *y);
                    }
                    break;
                case SlotOp::Self:
                    if (live) {
                        D& alias = *x;
                        *x = alias;
                    }
                    break;
                default:
                    break;
            }
        }
        void check()
        {
            if (!live)
                return;
            for (int m = 0; m < 2; ++m) {
                const std::string k = dump(SlotOf<D>::key(*real[m])), v = dump(SlotOf<D>::value(*real[m]));
                expect(k == ref[m].key && v == ref[m].value,
                    std::string(m ? "B" : "A") + " is " + k + "=" + v + ", expected " + ref[m].key + "=" + ref[m].value);
            }
            const auto *a = SlotOf<D>::value(*real[0]), *b = SlotOf<D>::value(*real[1]);
            expect(!a || a != b, "A and B share their element");
            expect((*real[0] == *real[1]) == (ref[0] == ref[1]), "equality of A and B");
        }
    };

    template <typename D>
    void slots(mc::Ctx& ctx)
    {
        mc::histories<SlotWorld<D>, SlotOp>(
            ctx, [](bool live) { return SlotWorld<D>(live); }, [](const SlotOp& o) { return show(o); }, 100);
    }
}

SCENARIO("member", 4)
{
    slots<dsd::Member>(ctx);
    // by name
    for (auto& k : { "", "a", "a b" })
        for (int v = -1; v < 3; ++v)
            if (ctx.begin(std::string("named ") + k + " " + std::to_string(v))) {
                dsd::Member m(std::string(k), slot(v));
                ctx.expect(dump(m.key()) == dump(str(k)) && dump(m.value()) == SlotWorld<dsd::Member>::text(v), "built wrong");
            }
}
SCENARIO("enum", 1)
{
    slots<dsd::Enum>(ctx);
}
SCENARIO("holder", 1)
{
    slots<dsd::Holder>(ctx);
}

SCENARIO("construction", 1)
{
    // from a list of elements, in order
    for (unsigned n = 0; n < 8; ++n) {
        if (!ctx.begin("construction from three of " + std::to_string(n)))
            continue;
        std::vector<Val> v;
        for (int i = 0; i < 3; ++i)
            v.push_back((n >> i) & 1 ? mem("k" + std::to_string(i), str("v")) : mem("k", num(std::to_string(i))));
        const std::string want = content(v);
        ctx.expect(content(dsd::Array(build(v[0]), build(v[1]), build(v[2]))) == want, "array");
        ctx.expect(content(dsd::Object(build(v[0]), build(v[1]), build(v[2]))) == want, "object");
        ctx.expect(content(dsd::Extend(build(v[0]), build(v[1]), build(v[2]))) == want, "extend");
        ctx.expect(content(dsd::Option(build(v[0]), build(v[1]), build(v[2]))) == want, "option");
        ctx.step(4);
        ctx.state(want);
    }
}

MC_MAIN
