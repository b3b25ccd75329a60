#include "models.hpp"
using namespace M;

struct Sim : public FastSimulator
{
    using FastSimulator::FastSimulator;
    using FastSimulator::process_model;
};
void H::run()
{
    int n = g_thorough ? 20000 : 1200, good = 0, bad = 0;
    for (int c = 0; c < n; c++)
    {
        g_log.clear();
        Model m(1 + below(9), coin(10), coin(30));
        bool cb = coin(80);
        ctx("callback ", cb, " ", m.d);
        if (coin(70) && cb) { for (auto& s : m.top.by_pre) m.by_cb.push_back(s); m.top.by_pre.clear(); }
        SimulatorBase::InputCallback f;
        if (cb) f = [&](Block& b, double t) { REQ(&b == &m.top, "the callback gets the model"); g_log.push_back({'C', -1, t}); for (auto& s : m.by_cb) if (!s->assigned()) s->set_value(t); };
        Sim sim(m.top, f);
        auto want = m.fixpoint(cb, true);
        bool all = true;
        for (bool w : want) all = all && w;
        double t = num();
        bool threw = throws([&] { sim.init(t); });
        EQ(threw, !all, "initialising succeeds exactly if every leaf can be ordered");
        if (threw) { bad++; continue; }
        good++;
        std::vector<int> first;
        // the ordering itself runs every leaf once, then comes the first pass
        size_t n0 = m.leaves.size() + (cb ? 3 : 2);
        REQ(g_log.size() >= n0, "calls of the initialisation");
        g_log.erase(g_log.begin(), g_log.begin() + long(n0));
        m.check_pass(t, cb, true, true, &first);
        EQ(first.size(), m.leaves.size(), "every leaf runs in the first pass");
        std::set<int> dist(first.begin(), first.end());
        EQ(dist.size(), m.leaves.size(), "each once");
        for (int k = 0; k < 4; k++)
        {
            t += pos();
            m.clear();
            g_log.clear();
            bool pre = !m.top.by_pre.empty() || coin(), post = coin();
            also(" pass pre ", pre, " post ", post);
            if (coin(70)) MUST_PASS(sim.process_model(t, pre, post), "a pass");
            else { pre = post = true; MUST_PASS(sim.run(t), "a run"); }
            std::vector<int> o;
            m.check_pass(t, cb, pre, post, &o);
            m.check_pipes();
            REQ(o == first, "the same order in every pass");
        }
    }
    REQ(good > n / 10 && bad > n / 50, "the harness reaches both outcomes: ", good, " ", bad);
}
