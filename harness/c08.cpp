#include "models.hpp"
using namespace M;

struct Sim : public Simulator
{
    using Simulator::Simulator;
    using Simulator::process_model;
    using Simulator::_current_po;
    using Simulator::_new_po;
};
void H::run()
{
    int n = g_thorough ? 20000 : 900;
    for (int c = 0; c < n; c++)
    {
        g_log.clear();
        Model m(1 + below(9), coin(25), coin(30));
        bool reuse = coin(), cb = coin(60);
        ctx("reuse ", reuse, " callback ", cb, " ", m.d);
        SimulatorBase::InputCallback f;
        if (cb) f = [&](Block& b, double t) { REQ(&b == &m.top, "the callback gets the model"); g_log.push_back({'C', -1, t}); for (auto& s : m.by_cb) if (!s->assigned()) s->set_value(t); };
        Sim sim(m.top, f, nullptr, reuse);
        auto ends = [&](bool pre) {
            m.check_pipes();
            auto want = m.fixpoint(cb, pre);
            for (size_t i = 0; i < want.size(); i++)
            {
                EQ(m.leaves[i]->acts, want[i] ? 1 : 0, "activations of leaf ", (long)i);
                EQ(m.leaves[i]->processed(), bool(want[i]), "leaf ", (long)i, " counts as processed");
            }
            if (reuse)
            {
                std::map<Block*, int> cnt;
                for (auto* b : *sim._current_po) cnt[b]++;
                EQ(cnt.size(), 1 + m.subs.size() + m.leaves.size() + m.extra_blocks, "every block is in the remembered order");
                for (auto& [b, k] : cnt) EQ(k, 1, "once in the remembered order");
                REQ(sim._current_po != sim._new_po, "the two orders are different vectors");
            }
        };
        bool now_pre = true;
        m.top.extra = [&](double) { ends(now_pre && true); };
        if (reuse) m.top.extra = [&](double) { auto want = m.fixpoint(cb, now_pre); for (size_t i = 0; i < want.size(); i++) EQ(m.leaves[i]->acts, want[i] ? 1 : 0, "activations of leaf ", (long)i, " when the post-step runs"); };
        double t = num();
        for (auto& l : m.leaves) l->acts = 0;
        MUST_PASS(sim.init(t), "initialising");
        m.check_pass(t, cb, true, true);
        ends(true);
        for (int k = 0; k < 4; k++)
        {
            t += pos();
            bool pre = coin(), post = coin();
            now_pre = pre;
            also(" pass pre ", pre, " post ", post);
            m.clear();
            for (auto& l : m.leaves) l->acts = 0;
            g_log.clear();
            if (coin(70)) MUST_PASS(sim.process_model(t, pre, post), "a pass");
            else { now_pre = pre = post = true; MUST_PASS(sim.run(t), "a run"); }
            m.check_pass(t, cb, pre, post);
            ends(pre);
        }
    }
}
