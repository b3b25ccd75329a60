// Random models: leaves that read and write scalar signals, nested in submodels, with hooks that log their calls.
#pragma once
#include "common.hpp"
#include "src/block/extra/bus_memory.hpp"
#include "src/block/extra/bus_pipe.hpp"
#include "src/block/leaf.hpp"
#include "src/block/submodel.hpp"
#include "src/signal/array_signal.hpp"
#include "src/signal/bus.hpp"
#include "src/signal/scalar_signal.hpp"
#include "src/solver/fast_simulator.hpp"
#include "src/solver/simulator.hpp"
namespace M
{
using namespace pooya;
using namespace H;
struct Ev { char what; int id; double t; };
inline std::vector<Ev> g_log;
struct L : public Leaf
{
    int id; int acts = 0;
    std::vector<ScalarSignal> in, opt, out;
    bool shown = true;
    L(Submodel* p, int i) : Leaf(p, "l" + std::to_string(i)), id(i) {}
    void link() { for (auto& s : in) link_signal(s, Input | Required); for (auto& s : opt) link_signal(s, Internal); for (auto& s : out) link_signal(s, Output); }
    void activation_function(double t) override
    {
        acts++;
        g_log.push_back({'A', id, t});
        for (auto& s : in) REQ(s->assigned(), "a leaf runs only when its required inputs are assigned");
        double v = id;
        for (auto& s : in) v += s->get_value();
        for (auto& s : out) if (!s->assigned()) s->set_value(v);
    }
};
struct S : public Submodel
{
    S(Submodel* p, int i) : Submodel(p, "s" + std::to_string(i)) {}
};
struct Top : public S
{
    std::vector<ScalarSignal> by_hook, by_pre;
    std::function<void(double)> extra;
    Top() : S(nullptr, 0) {}
    void input_cb(double t) override { g_log.push_back({'I', -1, t}); for (auto& s : by_hook) if (!s->assigned()) s->set_value(t); }
    void pre_step(double t) override { g_log.push_back({'<', -1, t}); for (auto& s : by_pre) if (!s->assigned()) s->set_value(t); Submodel::pre_step(t); }
    void post_step(double t) override { g_log.push_back({'>', -1, t}); if (extra) extra(t); Submodel::post_step(t); }
};
struct Model
{
    Top top;
    std::vector<std::shared_ptr<S>> subs;
    std::vector<std::shared_ptr<L>> leaves;
    std::vector<ScalarSignal> sigs, by_cb, bus_sigs;
    std::vector<std::unique_ptr<BusBlockBuilder>> bbs;
    std::vector<std::pair<ScalarSignal, ScalarSignal>> piped;
    size_t extra_blocks = 0; // bus block builders and the blocks they built
    std::string d;
    // leaves with edges i -> j; acyclic unless `loops`
    Model(int maxn, bool loops, bool builders = false)
    {
        int n = below(maxn + 1), ns = below(3), nsig = 1 + below(n + 3);
        for (int i = 0; i < nsig; i++) sigs.emplace_back(ScalarSignal());
        for (int i = 0; i < ns; i++) subs.push_back(std::make_shared<S>(subs.empty() || coin() ? static_cast<Submodel*>(&top) : subs.back().get(), i + 1));
        std::vector<int> where(n), order(n);
        for (int i = 0; i < n; i++) order[i] = i;
        shuffle(order);     // the position in the model is not the position in the data flow
        for (int i = 0; i < n; i++) leaves.push_back(std::make_shared<L>(subs.empty() || coin(60) ? static_cast<Submodel*>(&top) : pick(subs).get(), i));
        std::vector<int> driver(nsig, -1);
        for (int k = 0; k < nsig; k++)
        {
            int r = below(10);
            if (n && r < 7) driver[k] = below(n);
            else if (r == 7) by_cb.push_back(sigs[k]);
            else if (r == 8) top.by_hook.push_back(sigs[k]);
            else top.by_pre.push_back(sigs[k]);
        }
        std::vector<int> rank(n);
        for (int i = 0; i < n; i++) rank[order[i]] = i;
        d = cat(n, " leaves:");
        for (int i = 0; i < n; i++)
        {
            L& l = *leaves[i];
            d += cat(" l", i, "(");
            for (int k = 0; k < nsig; k++)
            {
                if (driver[k] == i) { l.out.push_back(sigs[k]); d += cat(">", k, " "); if (coin(15)) { l.opt.push_back(sigs[k]); } }
                else if (coin(25) && (loops || driver[k] < 0 || rank[driver[k]] < rank[i])) { if (coin(85)) { l.in.push_back(sigs[k]); d += cat("<", k, " "); } else l.opt.push_back(sigs[k]); }
            }
            d += ")";
            l.link();
        }
        for (int k = builders ? below(3) : 0; k > 0; k--)
        {
            // a bus pipe or memory between signals the input hook drives and signals of its own
            Submodel& p = subs.empty() || coin() ? static_cast<Submodel&>(top) : *pick(subs);
            bool mem = coin(35);
            auto in = [&] { ScalarSignal s("x"); top.by_hook.push_back(s); bus_sigs.push_back(s); return s; };
            auto out = [&] { ScalarSignal s("y"); bus_sigs.push_back(s); return s; };
            ScalarSignal a = in(), b = in(), x = out(), y = out();
            if (!mem) { piped.push_back({a, x}); piped.push_back({b, y}); bbs.push_back(std::make_unique<BusPipe>(p)); }
            else bbs.push_back(std::make_unique<BusMemory>(p));
            d += cat(mem ? " bus memory" : " bus pipe", &p == &top ? " at the top" : " in a submodel");
            bbs.back()->connect(Bus({{"u", Signal(a)}, {"v", Signal(b)}}), Bus({{"u", Signal(x)}, {"v", Signal(y)}}));
            extra_blocks += 3;
        }
    }
    // which leaves can run, given the signals assigned from outside
    std::vector<bool> fixpoint(bool cb, bool pre, const std::vector<bool>* known = nullptr)
    {
        std::set<const void*> a;
        auto key = [](const ScalarSignal& s) { return static_cast<const void*>(&s.impl()); };
        if (cb) for (auto& s : by_cb) a.insert(key(s));
        for (auto& s : top.by_hook) a.insert(key(s));
        if (pre) for (auto& s : top.by_pre) a.insert(key(s));
        (void)known;
        std::vector<bool> done(leaves.size(), false);
        for (bool more = true; more;)
        {
            more = false;
            for (size_t i = 0; i < leaves.size(); i++)
            {
                bool r = !done[i];
                for (auto& s : leaves[i]->in) r = r && a.count(key(s));
                if (r) { done[i] = true; more = true; for (auto& s : leaves[i]->out) a.insert(key(s)); }
            }
        }
        return done;
    }
    void clear() { for (auto& s : sigs) s->clear(); for (auto& s : bus_sigs) s->clear(); }
    void check_pipes() { for (auto& [a, b] : piped) { REQ(b->assigned(), "a pipe of a bus pipe ran"); EQD(b->get_value(), a->get_value(), "through a pipe of a bus pipe"); } }
    // checks the calls of one pass; `order` receives the activations
    void check_pass(double t, bool cb, bool pre, bool post, std::vector<int>* order = nullptr)
    {
        size_t i = 0;
        auto expect = [&](char w, const char* what) {
            REQ(i < g_log.size() && g_log[i].what == w, "call ", (long)i, " of the pass is ", what);
            EQD(g_log[i].t, t, what, " gets the time of the pass");
            i++;
        };
        if (cb) expect('C', "the input callback");
        expect('I', "the input hook");
        if (pre) expect('<', "the pre-step");
        for (; i < g_log.size() && g_log[i].what == 'A'; i++)
        {
            EQD(g_log[i].t, t, "activation time");
            if (order) order->push_back(g_log[i].id);
        }
        if (post) expect('>', "the post-step");
        EQ(i, g_log.size(), "no other calls in the pass");
    }
};
} // namespace M
