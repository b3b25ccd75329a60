#include "models.hpp"
using namespace M;
// one recorded call: what, time(s), whether all signals were unassigned, value of the state, flags
struct Rec { char what; double t, t2; bool cleared; double x; bool pre, post; double prop; };
static std::vector<Rec> g_run;
static std::vector<ValueSignalImpl*> g_all;
static bool cleared() { for (auto* s : g_all) if (s->assigned()) return false; return true; }
struct Model1 : public Submodel
{
    ScalarSignal x, d, z;
    ArraySignal ax{2}, ad{2};
    bool with_x, with_a;
    double cur = 0;
    Model1(bool wx, bool wa) : Submodel(nullptr, "top"), with_x(wx), with_a(wa)
    {
        if (wx) x->set_deriv_signal(d);
        if (wa) ax->set_deriv_signal(ad);
    }
    void link() { for (Signal s : {Signal(x), Signal(d), Signal(z), Signal(ax), Signal(ad)}) link_signal(s, Internal); }
    void input_cb(double t) override { g_run.push_back({'I', t, 0, cleared(), 0, 0, 0, 0}); if (coin()) z->set_value(t); }
    void pre_step(double t) override
    {
        g_run.push_back({'P', t, 0, cleared(), 0, 0, 0, 0});
        cur = num();
        if (with_x) x->set_value(cur);
        if (with_a) { Array a(2); a << cur, -cur; ax->set_value(a); }
    }
};
struct Stepper : public StepperBase
{
    std::vector<double> props; size_t i = 0;
    bool with_x, with_a;
    Array last; std::vector<Array> hist;
    void step(StepperCallback cb, double t0, const Array& y0, double t2, Array& y1, double& h) override
    {
        double p = i < props.size() ? props[i] : 1e6; i++;
        REQ(i < 10000, "the run ends");
        Rec r{'S', t0, t2, false, y0.size() > 0 ? y0[0] : 0, 0, 0, p};
        if (y0.size() == 3) { EQD(y0[1], y0[0], "second part of the start state"); EQD(y0[2], -y0[0], "third part of the start state"); }
        if (coin(30)) cb((t0 + t2) / 2, y0);
        for (long k = 0; k < y1.size(); k++) y1[k] = num();
        last = y1; hist.push_back(y1); h = p;
        g_run.push_back(r);
    }
};
struct Sim : public SimulatorBase
{
    using SimulatorBase::SimulatorBase;
    Model1* m; int inits = 0; double t_init = 0;
    void init(double t) override { inits++; t_init = t; SimulatorBase::init(t); }
    std::vector<Array> loaded;
    void process_model(double t, bool pre, bool post) override
    {
        Array a(long(m->with_x) + 2 * long(m->with_a)); long k = 0;
        if (m->with_x) { REQ(m->x->assigned(), "the state is loaded before an evaluation"); a[k++] = m->x->get_value(); }
        if (m->with_a) { REQ(m->ax->assigned(), "the state is loaded before an evaluation"); a[k++] = m->ax->get_value()[0]; a[k++] = m->ax->get_value()[1]; }
        REQ(!m->z->assigned() && !m->d->assigned() && !m->ad->assigned(), "nothing but the state is assigned before an evaluation");
        if (pre || post) { g_run.push_back({'M', t, 0, false, 0, pre, post, 0}); loaded.push_back(a); }
        m->d->set_value(1); Array b(2); b << 1, 2; m->ad->set_value(b); m->z->set_value(0);
    }
};
void H::run()
{
    int n = g_thorough ? 40000 : 2000;
    for (int c = 0; c < n; c++)
    {
        ctx("");
        bool wx = coin(70), wa = coin(40), states = wx || wa, cb = coin();
        Model1 top(wx, wa); top.link();
        g_all.clear();
        for (ValueSignalImpl* p : std::initializer_list<ValueSignalImpl*>{&static_cast<ValueSignalImpl&>(top.x.impl()), &static_cast<ValueSignalImpl&>(top.d.impl()), &static_cast<ValueSignalImpl&>(top.z.impl()), &static_cast<ValueSignalImpl&>(top.ax.impl()), &static_cast<ValueSignalImpl&>(top.ad.impl())}) g_all.push_back(p);
        Stepper st; st.with_x = wx; st.with_a = wa;
        Sim sim(top, cb ? SimulatorBase::InputCallback([&](Block& b, double t) { REQ(&b == &top, "the callback gets the model"); g_run.push_back({'C', t, 0, cleared(), 0, 0, 0, 0}); }) : nullptr, &st);
        sim.m = &top;
        double tp = num();
        also(wx ? "scalar state " : "", wa ? "array state " : "", cb ? "callback " : "");
        g_run.clear();
        bool expl = coin();
        if (expl) sim.init(tp);
        else { MUST_PASS(sim.run(tp, 0.25, 1), "the first run"); EQD(sim.t_init, tp, "time of the initialisation"); }
        EQ(sim.inits, 1, "the first run initialises");
        EQ(g_run.size(), size_t(0), "and does nothing else");
        also(expl ? "init " : "run ", tp);
        for (int rep = range(1, 4); rep > 0; rep--)
        {
            double hmin = range(1, 8) / 16.0, hmax = hmin + range(1, 32) / 16.0;
            int how = below(100);
            double t = how < 15 ? tp : how < 30 && states ? tp - pos() : tp + pos();
            st.props.clear(); st.i = 0;
            for (int k = below(30); k > 0; k--)
                st.props.push_back(coin(15) ? 0 : coin(10) ? -1 : coin(20) ? hmin : coin(20) ? 100 : range(1, 48) / 16.0);
            std::string ps; for (double p : st.props) ps += cat(" ", p);
            also(" | run ", t, " min ", hmin, " max ", hmax, " proposals", ps);
            g_run.clear(); sim.loaded.clear(); st.hist.clear();
            if (states && t < tp) { MUST_THROW(sim.run(t, hmin, hmax), "going back"); EQ(g_run.size(), size_t(0), "nothing happens"); continue; }
            MUST_PASS(sim.run(t, hmin, hmax), "a run");
            EQ(sim.inits, 1, "no further initialisation");
            size_t i = 0, ne = 0;
            auto next = [&](char w, const char* what) -> Rec { REQ(i < g_run.size() && g_run[i].what == w, what, " comes next (call ", (long)i, ")"); return g_run[i++]; };
            auto prepare = [&](double at) {
                bool first = true; Rec r;
                if (cb) { r = next('C', "the input callback"); EQD(r.t, at, "time of the input callback"); REQ(r.cleared, "the signals are cleared first"); first = false; }
                r = next('I', "the input hook"); EQD(r.t, at, "time of the input hook"); if (first) REQ(r.cleared, "the signals are cleared first");
                r = next('P', "the pre-step"); EQD(r.t, at, "time of the pre-step");
            };
            auto eval = [&](double at, bool pre, const Array* want) {
                Rec r = next('M', "an evaluation"); EQD(r.t, at, "time of the evaluation"); EQ(r.pre, pre, "pre-step of the evaluation"); EQ(r.post, true, "post-step of the evaluation");
                if (want) for (long k = 0; k < want->size(); k++) EQD(sim.loaded[ne][k], (*want)[k], "loaded state, entry ", k);
                ne++;
            };
            if (!states) eval(t, true, nullptr);
            else if (t == tp)
            {
                prepare(t);
                Array w(long(wx) + 2 * long(wa)); long k = 0;
                if (wx) w[k++] = top.cur;
                if (wa) { w[k++] = top.cur; w[k++] = -top.cur; }
                eval(t, false, &w);
            }
            else
            {
                double t1 = tp; bool force = false, redo = false; double lim = 0; size_t ns = 0;
                while (t1 < t)
                {
                    prepare(t1);
                    Rec r = next('S', "a sub-step");
                    double h = r.t2 - r.t; ns++;
                    EQD(r.t, t1, "a sub-step starts where the last accepted one ended");
                    REQ(r.t2 <= t && h > 0 && h <= hmax, "bounded sub-step from ", r.t, " to ", r.t2);
                    if (redo) REQ(h < lim && h >= hmin, "a repeated sub-step is shorter, not below the minimum: ", h);
                    redo = r.prop < h && h > hmin && !force;
                    force = redo && r.prop <= hmin; lim = h;
                    if (!redo) { t1 = r.t2; if (t1 < t) eval(t1, false, &st.hist[ns - 1]); }
                }
                eval(t, false, &st.last);
            }
            EQ(i, g_run.size(), "nothing else is called");
            tp = t;
        }
    }
}
