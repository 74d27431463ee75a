// C05: trees of Markdown nodes keep their shape, their contents and their parents through copies and assignments.
#include "mc.hpp"
#include <limits>
#include "MarkdownNode.h"

using namespace mdp;

namespace
{
    // reference tree
    struct Ref {
        int type = 0;
        std::string text;
        int data = 0;
        std::vector<std::pair<std::size_t, std::size_t> > map;
        std::vector<Ref> kids;
    };

    std::string show(const Ref& r)
    {
        std::string o = std::to_string(r.type) + ":" + r.text + ":" + std::to_string(r.data);
        for (auto& m : r.map)
            o += "@" + std::to_string(m.first) + "+" + std::to_string(m.second);
        o += "(";
        for (auto& k : r.kids)
            o += show(k);
        return o + ")";
    }

    std::string show(const MarkdownNode& r)
    {
        std::string o
            = std::to_string(static_cast<int>(r.type)) + ":" + r.text + ":" + std::to_string(static_cast<int>(r.data));
        for (auto& m : r.sourceMap)
            o += "@" + std::to_string(m.location) + "+" + std::to_string(m.length);
        o += "(";
        for (auto& k : r.children())
            o += show(k);
        return o + ")";
    }

    // first node below `n` whose parent is not the node that holds it
    bool parented(const MarkdownNode& n)
    {
        for (auto& k : n.children())
            if (!k.hasParent() || &k.parent() != &n || !parented(k))
                return false;
        return true;
    }

    MarkdownNode* at(MarkdownNode& n, const std::vector<unsigned>& path)
    {
        MarkdownNode* p = &n;
        for (unsigned i : path)
            p = &p->children()[i];
        return p;
    }
    Ref* at(Ref& n, const std::vector<unsigned>& path)
    {
        Ref* p = &n;
        for (unsigned i : path)
            p = &p->kids[i];
        return p;
    }

    void paths(const Ref& r, std::vector<unsigned>& prefix, std::vector<std::vector<unsigned> >& out)
    {
        out.push_back(prefix);
        for (unsigned i = 0; i < r.kids.size(); ++i) {
            prefix.push_back(i);
            paths(r.kids[i], prefix, out);
            prefix.pop_back();
        }
    }

    std::string show(const std::vector<unsigned>& path)
    {
        std::string o = "/";
        for (unsigned i : path)
            o += std::to_string(i) + "/";
        return o;
    }


    // A history: two documents, changed step by step. Both the real trees and the reference ones are rebuilt by
    // replaying it, so that every state is reached by the real code along its own history.
    struct Op {
        enum Kind { PushBack, PushFront, Erase, Assign, CopyIn, Replace, SelfAssign, Edit } kind;
        int tree = 0;                // the tree changed
        std::vector<unsigned> path;  // the node changed
        int from = 0;                // the tree copied from
        std::vector<unsigned> source;
    };

    std::string show(const Op& o)
    {
        static const char* names[]
            = { "push_back", "push_front", "erase", "assign", "copy-in", "replace", "self-assign", "edit" };
        std::string s = std::string(names[o.kind]) + " " + (o.tree ? "B" : "A") + show(o.path);
        if (o.kind == Op::Assign || o.kind == Op::CopyIn || o.kind == Op::Replace)
            s += std::string(" from ") + (o.from ? "B" : "A") + show(o.source);
        return s;
    }

    struct World {
        std::unique_ptr<MarkdownNode> real[2];
        Ref ref[2];
        int serial = 0;

        World()
        {
            for (auto& r : real) {
                r.reset(new MarkdownNode(RootMarkdownNodeType));
            }
            ref[1].type = ref[0].type = RootMarkdownNodeType;
        }

        void apply(const Op& o)
        {
            ++serial;
            MarkdownNode* n = at(*real[o.tree], o.path);
            Ref* r = at(ref[o.tree], o.path);
            const MarkdownNodeType type = static_cast<MarkdownNodeType>(1 + serial % 7);
            const std::string text(static_cast<std::size_t>(serial), static_cast<char>('a' + serial));
            switch (o.kind) {
                case Op::PushBack:
                case Op::PushFront: {
                    MarkdownNode fresh(type, n, text, serial);
                    fresh.sourceMap.push_back(BytesRange(static_cast<std::size_t>(serial), 2));
                    Ref f;
                    f.type = type;
                    f.text = text;
                    f.data = serial;
                    f.map.emplace_back(serial, 2);
                    if (o.kind == Op::PushBack) {
                        n->children().push_back(fresh);
                        r->kids.push_back(f);
                    } else {
                        n->children().push_front(fresh);
                        r->kids.insert(r->kids.begin(), f);
                    }
                    break;
                }
                case Op::Erase: { // the node itself, from its parent
                    auto up = o.path;
                    const unsigned i = up.back();
                    up.pop_back();
                    MarkdownNode* p = at(*real[o.tree], up);
                    p->children().erase(p->children().begin() + i);
                    Ref* q = at(ref[o.tree], up);
                    q->kids.erase(q->kids.begin() + i);
                    break;
                }
                case Op::Assign: { // contents and children of another node
                    MarkdownNode* up = n->hasParent() ? &n->parent() : nullptr;
                    *n = *at(*real[o.from], o.source);
                    n->setParent(up);
                    Ref copy = *at(ref[o.from], o.source);
                    *r = copy;
                    break;
                }
                case Op::SelfAssign: {
                    MarkdownNode& alias = *n;
                    *n = alias;
                    break;
                }
                case Op::CopyIn: { // a copy as another child
                    MarkdownNode copy(*at(*real[o.from], o.source));
                    copy.setParent(n);
                    n->children().push_back(copy);
                    Ref c = *at(ref[o.from], o.source);
                    r->kids.push_back(c);
                    break;
                }
                case Op::Replace: { // the whole tree by a copy of a node; what it was copied from may be gone then
                    std::unique_ptr<MarkdownNode> copy(new MarkdownNode(*at(*real[o.from], o.source)));
                    copy->setParent(nullptr);
                    Ref c = *at(ref[o.from], o.source);
                    real[o.tree] = std::move(copy);
                    ref[o.tree] = c;
                    break;
                }
                case Op::Edit: {
                    n->text += "!";
                    n->data = serial;
                    n->type = type;
                    n->sourceMap.push_back(BytesRange(1, static_cast<std::size_t>(serial)));
                    r->text += "!";
                    r->data = serial;
                    r->type = type;
                    r->map.emplace_back(1, serial);
                    break;
                }
            }
        }

        std::string key() const
        {
            return show(ref[0]) + "|" + show(ref[1]);
        }
        std::string shape(const Ref& r) const
        {
            std::string o = "(";
            for (auto& k : r.kids)
                o += shape(k);
            return o + ")";
        }
        std::size_t size(const Ref& r) const
        {
            std::size_t n = 1;
            for (auto& k : r.kids)
                n += size(k);
            return n;
        }
    };

    std::vector<Op> moves(World& w)
    {
        std::vector<Op> o;
        std::vector<std::vector<unsigned> > all[2];
        for (int t = 0; t < 2; ++t) {
            std::vector<unsigned> p;
            paths(w.ref[t], p, all[t]);
        }
        for (int t = 0; t < 2; ++t)
            for (auto& p : all[t]) {
                const bool small = w.size(w.ref[t]) < 6;
                if (small) {
                    o.push_back(Op{ Op::PushBack, t, p });
                    o.push_back(Op{ Op::PushFront, t, p });
                }
                if (!p.empty())
                    o.push_back(Op{ Op::Erase, t, p });
                o.push_back(Op{ Op::SelfAssign, t, p });
                o.push_back(Op{ Op::Edit, t, p });
                for (int f = 0; f < 2; ++f)
                    for (auto& q : all[f]) {
                        // from above or below itself as well
                        if (t != f || p != q)
                            o.push_back(Op{ Op::Assign, t, p, f, q });
                        if (small)
                            o.push_back(Op{ Op::CopyIn, t, p, f, q });
                        if (p.empty())
                            o.push_back(Op{ Op::Replace, t, p, f, q });
                    }
            }
        return o;
    }

    void check(mc::Ctx& ctx, World& w)
    {
        for (int t = 0; t < 2; ++t) {
            const std::string got = show(*w.real[t]), want = show(w.ref[t]);
            if (!ctx.expect(got == want, std::string(t ? "B" : "A") + " is " + got + ", expected " + want))
                return;
            if (!ctx.expect(parented(*w.real[t]), std::string("a node of ") + (t ? "B" : "A")
                        + " does not have the node that holds it as its parent"))
                return;
            if (!ctx.expect(!w.real[t]->hasParent(), std::string(t ? "B" : "A") + " has a parent"))
                return;
        }
        ctx.step();
    }

    void explore(mc::Ctx& ctx, std::vector<Op>& history, unsigned depth, unsigned first)
    {
        World w;
        std::string id;
        for (auto& o : history)
            id += (id.empty() ? "" : "; ") + show(o);
        ctx.enter(id.empty() ? "nothing" : id);
        for (auto& o : history)
            w.apply(o);
        check(ctx, w);
        ctx.trace();
        ctx.state(w.key());
        ctx.outcome(w.shape(w.ref[0]) + w.shape(w.ref[1]));
        ctx.sample(id);
        if (!depth || ctx.full())
            return;
        unsigned i = 0;
        for (auto& o : moves(w)) {
            if (history.size() == 1 && first != ~0u && i++ % ctx.nshards != first)
                continue;
            history.push_back(o);
            explore(ctx, history, depth - 1, first);
            history.pop_back();
        }
    }
}

SCENARIO("histories", 8)
{
    // every sequence of operations on two trees
    std::vector<Op> h;
    explore(ctx, h, ctx.thorough ? 5 : 4, ctx.shard);
}

SCENARIO("copies", 4)
{
    // every shape of up to six nodes: copied, the copy outlives and does not touch the original
    std::vector<std::vector<unsigned> > shapes; // parent of node i among 0..i-1
    std::function<void(std::vector<unsigned>&, unsigned)> grow = [&](std::vector<unsigned>& p, unsigned n) {
        shapes.push_back(p);
        if (n == 0)
            return;
        for (unsigned i = 0; i <= p.size(); ++i) {
            p.push_back(i);
            grow(p, n - 1);
            p.pop_back();
        }
    };
    std::vector<unsigned> none;
    grow(none, ctx.thorough ? 6 : 5);
    for (auto& s : shapes)
        for (int mode = 0; mode < 3; ++mode) {
            if (!ctx.mine() || ctx.full())
                continue;
            std::string id = "nodes below";
            for (unsigned p : s)
                id += " " + std::to_string(p);
            id += mode == 0 ? ", copied" : mode == 1 ? ", assigned" : ", assigned over another tree";
            if (!ctx.begin(id))
                continue;
            std::unique_ptr<MarkdownNode> root(new MarkdownNode(RootMarkdownNodeType, nullptr, "root", 7));
            Ref ref;
            ref.type = RootMarkdownNodeType;
            ref.text = "root";
            ref.data = 7;
            std::vector<std::vector<unsigned> > where(1);
            for (unsigned i = 0; i < s.size(); ++i) {
                auto path = where[s[i]];
                MarkdownNode* n = at(*root, path);
                Ref* r = at(ref, path);
                MarkdownNode k(ParagraphMarkdownNodeType, n, std::string(1, static_cast<char>('a' + i)), static_cast<int>(i));
                k.sourceMap.push_back(BytesRange(i, i + 1));
                n->children().push_back(k);
                Ref q;
                q.type = ParagraphMarkdownNodeType;
                q.text = k.text;
                q.data = static_cast<int>(i);
                q.map.emplace_back(i, i + 1);
                r->kids.push_back(q);
                path.push_back(static_cast<unsigned>(r->kids.size() - 1));
                where.push_back(path);
            }
            const std::string want = show(ref);
            std::unique_ptr<MarkdownNode> copy;
            if (mode == 0)
                copy.reset(new MarkdownNode(*root));
            else {
                copy.reset(new MarkdownNode(QuoteMarkdownNodeType, nullptr, "old", 1));
                if (mode == 2)
                    for (int i = 0; i < 3; ++i)
                        copy->children().push_back(MarkdownNode(HTMLMarkdownNodeType, copy.get(), "x", 1));
                *copy = *root;
            }
            ctx.step();
            ctx.expect(show(*copy) == want, "the copy is " + show(*copy));
            ctx.expect(show(*root) == want, "the original became " + show(*root));
            ctx.expect(parented(*copy), "a node of the copy does not have the node that holds it as its parent");
            ctx.expect(parented(*root), "a node of the original does not have the node that holds it as its parent");
            for (auto& path : where) { // changing a node of the copy
                MarkdownNode* n = at(*copy, path);
                n->text = "changed";
                n->sourceMap.clear();
                n->children().push_back(MarkdownNode(HTMLMarkdownNodeType, n, "new", 9));
                ctx.step();
            }
            ctx.expect(show(*root) == want, "changing the copy changed the original to " + show(*root));
            const std::string changed = show(*copy);
            root.reset();
            ctx.expect(show(*copy) == changed && parented(*copy), "the copy changed with the end of the original");
            ctx.state(want);
            ctx.outcome(changed);
            ctx.trace();
            ctx.sample(id);
        }
}

SCENARIO("sizes", 4)
{
    // trees of any width and depth, texts, source maps and data of any size: copied, assigned, found again
    std::vector<std::size_t> sizes;
    for (std::size_t n = 0; n <= 70; ++n)
        sizes.push_back(n);
    for (std::size_t n : { 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097 })
        sizes.push_back(n);
    static const char* FORMS[] = { "wide", "deep", "both", "long text", "long map", "data" };
    const int DATA[] = { std::numeric_limits<int>::min(), -65537, -32769, -129, -1, 0, 6, 127, 128, 255, 256, 32768, 65535, 65536,
        1 << 24, std::numeric_limits<int>::max() };
    const std::size_t PLACES[] = { 0, 1, 255, 256, 65535, 65536, std::size_t{ 1 } << 31, std::size_t{ 1 } << 32,
        (std::size_t{ 1 } << 53) + 1, std::numeric_limits<std::size_t>::max() };
    for (int form = 0; form < 6; ++form)
        for (auto n : sizes) {
            if (!ctx.mine() || ctx.full() || (form == 1 && n > 2049) || (form == 2 && n > 70))
                continue;
            if (!ctx.begin(std::string(FORMS[form]) + " " + std::to_string(n)))
                continue;
            std::unique_ptr<MarkdownNode> root(new MarkdownNode(RootMarkdownNodeType, nullptr, "root", 7));
            Ref ref;
            ref.type = RootMarkdownNodeType;
            ref.text = "root";
            ref.data = 7;
            auto add = [&](MarkdownNode& to, Ref& r, std::size_t i) {
                MarkdownNode k(static_cast<MarkdownNodeType>(1 + i % TableCellMarkdownNodeType), &to, std::to_string(i), static_cast<int>(i));
                k.sourceMap.push_back(BytesRange(i, i + 1));
                Ref q;
                q.type = k.type;
                q.text = k.text;
                q.data = static_cast<int>(i);
                q.map.emplace_back(i, i + 1);
                to.children().push_back(k);
                r.kids.push_back(q);
            };
            if (form == 0 || form == 2)
                for (std::size_t i = 0; i < n; ++i) {
                    add(*root, ref, i);
                    for (std::size_t j = 0; form == 2 && j < n; ++j)
                        add(root->children()[i], ref.kids[i], j);
                }
            else if (form == 1) {
                MarkdownNode* at = root.get();
                Ref* r = &ref;
                for (std::size_t i = 0; i < n; ++i) {
                    add(*at, *r, i);
                    at = &at->children()[0];
                    r = &r->kids[0];
                }
            } else if (form == 3) {
                for (std::size_t i = 0; i < n; ++i)
                    ref.text += static_cast<char>(i * 7 + 1);
                root->text = ref.text;
            } else if (form == 4)
                for (std::size_t i = 0; i < n; ++i) {
                    root->sourceMap.push_back(BytesRange(PLACES[i % 10] - (i % 10 == 9) * i, PLACES[(i + 3) % 10]));
                    ref.map.emplace_back(PLACES[i % 10] - (i % 10 == 9) * i, PLACES[(i + 3) % 10]);
                }
            else {
                root->data = ref.data = DATA[n % 16];
                MarkdownNode k(HeaderMarkdownNodeType, root.get(), "", DATA[(n + 5) % 16]);
                Ref q;
                q.type = HeaderMarkdownNodeType;
                q.data = DATA[(n + 5) % 16];
                root->children().push_back(k);
                ref.kids.push_back(q);
            }
            const std::string want = show(ref);
            ctx.expect(show(*root) == want && parented(*root), "the tree that was made is another");
            MarkdownNode copy(*root), assigned(QuoteMarkdownNodeType, nullptr, "old", 1);
            for (std::size_t i = 0; i < n % 50; ++i)
                assigned.children().push_back(MarkdownNode(HTMLMarkdownNodeType, &assigned, "x", 1));
            assigned = *root;
            root.reset();
            ctx.expect(show(copy) == want && parented(copy), "the copy is another");
            ctx.expect(show(assigned) == want && parented(assigned), "what was assigned is another");
            copy = copy;
            ctx.expect(show(copy) == want && parented(copy), "assigned to itself it is another");
            ctx.step(4);
            ctx.state(want);
            ctx.trace();
        }
}

SCENARIO("parents", 1)
{
    // a node without a parent says so, and asking for it is refused
    for (int type = -1; type <= static_cast<int>(TableCellMarkdownNodeType); ++type) {
        if (!ctx.begin("a node of type " + std::to_string(type)))
            continue;
        MarkdownNode n(static_cast<MarkdownNodeType>(type));
        MarkdownNode p;
        bool refused = false;
        try {
            n.parent();
        } catch (...) {
            refused = true;
        }
        ctx.expect(refused && !n.hasParent(), "a parent out of nowhere");
        n.setParent(&p);
        ctx.expect(n.hasParent() && &n.parent() == &p, "not the parent that was set");
        const MarkdownNode& c = n;
        ctx.expect(&c.parent() == &p && c.children().empty(), "not the parent that was set");
        n.setParent(nullptr);
        refused = false;
        try {
            c.parent();
        } catch (...) {
            refused = true;
        }
        ctx.expect(refused && !n.hasParent(), "the parent stays");
        ctx.step(4);
        ctx.trace();
        ctx.state(std::to_string(type));
        ctx.outcome("refused");
    }
}

MC_MAIN
