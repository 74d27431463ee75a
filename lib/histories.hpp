// Explicit-state search over histories of operations.
//
// A World holds a reference model and, when live, the real objects. The reachable states of the model are enumerated
// breadth first (to a fixed point, or to a depth); every transition out of every state is then run on the real code
// by replaying the shortest history to that state and taking the transition, comparing after every step.
//
// World: std::vector<Op> moves() const; void apply(const Op&); std::string key() const; World model() const (a copy of
//        the model alone); std::string problem (empty: the real objects agree); void check() compares them completely.
#ifndef VERIF_HISTORIES_HPP
#define VERIF_HISTORIES_HPP

#include "mc.hpp"
#include <deque>

namespace mc
{
    template <typename World, typename Op, typename Make, typename Show>
    void histories(Ctx& ctx, Make make, Show show, unsigned maxDepth, std::size_t maxStates = 2000000)
    {
        struct Node {
            std::uint32_t parent;
            unsigned depth;
            Op op;
            World at; // model only
        };
        std::deque<Node> nodes;
        std::unordered_set<std::string> seen;
        {
            World w = make(false);
            seen.insert(w.key());
            ctx.state(w.key());
            nodes.push_back(Node{ 0, 0, Op(), std::move(w) });
        }
        bool cut = false;
        unsigned deepest = 0;
        for (std::uint32_t i = 0; i < nodes.size(); ++i) {
            std::vector<Op> h;
            for (std::uint32_t p = i; p; p = nodes[p].parent)
                h.insert(h.begin(), nodes[p].op);
            const auto ops = nodes[i].at.moves();
            const bool deeper = nodes[i].depth + 1 <= maxDepth;
            for (auto& o : ops) {
                const bool mine = ctx.mine();
                if (deeper || mine) {
                    World next = nodes[i].at.model();
                    next.apply(o);
                    const std::string k = next.key();
                    if (mine) {
                        ctx.state(k);
                        ctx.outcome(k);
                    }
                    if (deeper && !seen.count(k)) {
                        if (nodes.size() < maxStates) {
                            seen.insert(k);
                            nodes.push_back(Node{ i, nodes[i].depth + 1, o, std::move(next) });
                            deepest = nodes[i].depth + 1;
                        } else
                            cut = true;
                    }
                }
                if (!mine || ctx.full())
                    continue;
                std::string id;
                for (auto& p : h)
                    id += show(p) + "; ";
                id += show(o);
                if (!ctx.begin(id))
                    continue;
                World w = make(true);
                for (auto& p : h)
                    w.apply(p);
                w.apply(o);
                w.check();
                ctx.step(h.size() + 1);
                ctx.expect(w.problem.empty(), w.problem);
                ctx.trace();
                ctx.sample(id, 2);
            }
        }
        ctx.count("model_states_" + ctx.scenario, ctx.shard == 0 ? nodes.size() : 0);
        ctx.count("deepest_history_" + ctx.scenario, ctx.shard == 0 ? deepest : 0);
        if (cut)
            ctx.notes.push_back("cap of " + std::to_string(maxStates) + " states reached in " + ctx.scenario);
    }
}

#endif
