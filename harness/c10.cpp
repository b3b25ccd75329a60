#include "models.hpp"
#include "src/signal/bool_signal.hpp"
#include "src/signal/int_signal.hpp"
using namespace M;

struct B : public Leaf
{
    B(Submodel* p) : Leaf(p, "b") {}
    void activation_function(double) override {}
    using Block::link_signal;
};
struct Stepper : public StepperBase
{
    std::function<void(StepperBase::StepperCallback)> f;
    void step(StepperBase::StepperCallback cb, double, const Array& y0, double t2, Array& y1, double& h) override { y1 = y0; h = 1e9; (void)t2; if (f) f(cb); }
};
struct Sim : public SimulatorBase
{
    using SimulatorBase::SimulatorBase;
    using SimulatorBase::get_state_variables;
    using SimulatorBase::reset_with_state_variables;
    using SimulatorBase::value_signals_;
    using SimulatorBase::scalar_state_signals_;
    using SimulatorBase::array_state_signals_;
    using SimulatorBase::_state_variables;
    struct Pass { double t; bool pre, post; };
    std::vector<Pass> log;
    std::function<void()> eval;
    void process_model(double t, bool pre, bool post) override { log.push_back({t, pre, post}); if (eval) eval(); }
};
struct Sig { Signal s; ValueSignalImpl* p; int kind; int len; int der = -1; };
static void value(Sig& x, std::vector<double>& v)
{
    v.clear();
    if (x.kind == 0) { v = {num()}; dynamic_cast<ScalarSignalImpl&>(*x.p).set_value(v[0]); }
    else if (x.kind == 1) { Array a(x.len); for (int i = 0; i < x.len; i++) { a[i] = num(); v.push_back(a[i]); } dynamic_cast<ArraySignalImpl&>(*x.p).set_value(a); }
    else if (x.kind == 2) dynamic_cast<IntSignalImpl&>(*x.p).set_value(1);
    else dynamic_cast<BoolSignalImpl&>(*x.p).set_value(true);
}
void H::run()
{
    int n = g_thorough ? 20000 : 1000;
    for (int c = 0; c < n; c++)
    {
        ctx("");
        Submodel top(nullptr, "top"), sub(&top, "sub");
        std::vector<std::shared_ptr<B>> blocks;
        for (int i = range(1, 4); i > 0; i--) blocks.push_back(std::make_shared<B>(coin() ? &top : &sub));
        std::vector<Sig> sigs;
        int ns = range(1, 8);
        for (int i = 0; i < ns; i++)
        {
            int k = coin(40) ? 0 : coin(60) ? 1 : 2 + below(2), len = below(4);
            Signal s = k == 0 ? Signal(ScalarSignal()) : k == 1 ? Signal(ArraySignal(len)) : k == 2 ? Signal(IntSignal()) : Signal(BoolSignal());
            sigs.push_back({s, dynamic_cast<ValueSignalImpl*>(&s.impl()), k, k == 0 ? 1 : len});
            also(k == 0 ? " scalar" : k == 1 ? cat(" array", len) : std::string(" other"));
        }
        for (int i = 0; i < ns; i++)
            if (sigs[i].kind < 2 && coin(60))
                for (int j = 0; j < ns; j++)
                    if (j != i && sigs[j].kind == sigs[i].kind && sigs[j].len == sigs[i].len)
                    {
                        sigs[i].der = j;
                        if (sigs[i].kind == 0) dynamic_cast<ScalarSignalImpl&>(*sigs[i].p).set_deriv_signal(sigs[j].s);
                        else dynamic_cast<ArraySignalImpl&>(*sigs[i].p).set_deriv_signal(sigs[j].s);
                        also(" d", i, "=", j);
                        if (coin()) break;
                    }
        std::set<int> linked;
        auto link = [&] {
            for (int i = 0; i < ns; i++)
                for (int r = below(3); r > 0; r--) { pick(blocks)->link_signal(sigs[i].s, coin() ? Block::Input | Block::Required : coin() ? Block::Output : Block::Internal); linked.insert(i); }
        };
        link();
        Stepper st;
        Sim sim(top, nullptr, &st);
        // values from before must not survive
        std::vector<double> junk;
        for (auto& s : sigs) if (coin()) value(s, junk);
        double t = num();
        for (int rep = range(1, 3); rep > 0; rep--)
        {
            also(" init with ", (long)linked.size(), " linked");
            MUST_PASS(sim.init(t), "initialising");
            std::map<const void*, int> cnt;
            for (auto& p : sim.value_signals_) cnt[p.get()]++;
            for (int i = 0; i < ns; i++) EQ(cnt[sigs[i].p], linked.count(i) ? 1 : 0, "signal ", i, " is collected once if it is linked");
            EQ(sim.value_signals_.size(), linked.size(), "nothing else is collected");
            for (int i : linked) REQ(!sigs[i].p->assigned(), "signal ", i, " is cleared");
            std::set<const void*> states, got;
            long size = 0;
            for (int i : linked) if (sigs[i].der >= 0) { states.insert(sigs[i].p); size += sigs[i].len; }
            for (auto& p : sim.scalar_state_signals_) REQ(got.insert(static_cast<ValueSignalImpl*>(p.get())).second, "a scalar state appears once");
            for (auto& p : sim.array_state_signals_) REQ(got.insert(static_cast<ValueSignalImpl*>(p.get())).second, "an array state appears once");
            REQ(got == states, "the states are the linked signals with a derivative");
            EQ(long(sim._state_variables.size()), size, "length of the state vector");
            // loading
            std::vector<std::pair<ValueSignalImpl*, int>> slot;     // signal of each entry, position inside
            for (auto& p : sim.scalar_state_signals_) slot.push_back({p.get(), 0});
            for (auto& p : sim.array_state_signals_) for (size_t j = 0; j < p->size(); j++) slot.push_back({p.get(), int(j)});
            auto check_loaded = [&](const Array& x) {
                for (int i : linked) EQ(sigs[i].p->assigned(), sigs[i].der >= 0, "after loading exactly the states are assigned (signal ", i, ")");
                for (size_t k = 0; k < slot.size(); k++)
                {
                    double v;
                    if (auto* q = dynamic_cast<ScalarSignalImpl*>(slot[k].first)) v = q->get_value();
                    else v = dynamic_cast<ArraySignalImpl*>(slot[k].first)->get_value()[slot[k].second];
                    EQD(v, x[long(k)], "entry ", (long)k, " of the loaded state");
                }
            };
            for (auto& s : sigs) if (!s.p->assigned() && coin()) value(s, junk);
            Array x(size), y(size);
            for (long k = 0; k < size; k++) { x[k] = num(); y[k] = -1; }
            MUST_PASS(sim.reset_with_state_variables(x), "loading");
            check_loaded(x);
            MUST_PASS(sim.get_state_variables(y), "reading back");
            for (long k = 0; k < size; k++) EQD(y[k], x[k], "entry ", k, " read back");
            // derivatives
            if (size > 0)
            {
                bool called = false;
                std::map<int, std::vector<double>> vals;
                // the states are assigned before a sub-step by the input callback
                Sim sim2(top, [&](Block&, double) { for (int i : linked) if (sigs[i].der >= 0) value(sigs[i], junk); }, &st);
                {
                    auto f = [&](StepperBase::StepperCallback cb) {
                        called = true;
                        for (int rep2 = 0; rep2 < 2; rep2++)
                        {
                            for (long k = 0; k < size; k++) x[k] = num();
                            double tt = t + pos();
                            slot.clear();
                            for (auto& p : sim2.scalar_state_signals_) slot.push_back({p.get(), 0});
                            for (auto& p : sim2.array_state_signals_) for (size_t j = 0; j < p->size(); j++) slot.push_back({p.get(), int(j)});
                            sim2.eval = [&] {
                                check_loaded(x);
                                vals.clear();
                                for (int i = 0; i < ns; i++) { if (!linked.count(i)) sigs[i].p->clear(); if (!sigs[i].p->assigned()) value(sigs[i], vals[i]); }
                                for (int i = 0; i < ns; i++) if (!vals.count(i))
                                {
                                    if (sigs[i].kind == 0) vals[i] = {dynamic_cast<ScalarSignalImpl&>(*sigs[i].p).get_value()};
                                    if (sigs[i].kind == 1) { auto& a = dynamic_cast<ArraySignalImpl&>(*sigs[i].p).get_value(); vals[i].assign(a.data(), a.data() + a.size()); }
                                }
                            };
                            sim2.log.clear();
                            Array d = cb(tt, x);
                            EQ(sim2.log.size(), size_t(1), "one evaluation");
                            EQD(sim2.log[0].t, tt, "at the given time");
                            REQ(!sim2.log[0].pre && !sim2.log[0].post, "without pre- and post-step");
                            EQ(long(d.size()), size, "length of the derivative vector");
                            for (size_t k = 0; k < slot.size(); k++)
                                for (int i = 0; i < ns; i++) if (sigs[i].p == slot[k].first) EQD(d[long(k)], vals[sigs[i].der][slot[k].second], "entry ", (long)k, " of the derivative");
                            sim2.eval = nullptr;
                        }
                    };
                    st.f = f;
                    sim2.init(t);
                    sim2.eval = nullptr;
                    MUST_PASS(sim2.run(t + 1, 1e-3, 10), "a run");
                    REQ(called, "the stepper ran");
                }
            }
            for (auto& s : sigs) s.p->clear();
            if (coin()) link();
        }
    }
}
