#include "ports.hpp"
#include "src/block/extra/triggered_integrator.hpp"
#include "src/block/integrator.hpp"
using namespace P;
template<typename T> struct Trig : public TriggeredIntegratorT<T> { using TriggeredIntegratorT<T>::TriggeredIntegratorT; };
template<typename T> static void one()
{
    using X = Tr<T>; using S = typename X::S;
    int len = std::is_same_v<T, Array> ? range(1, 3) : 1;
    bool trig = coin(60), dflt = !std::is_same_v<T, Array> && coin(20);
    V ic = dflt ? V{0} : X::num(len);
    ctx(X::name(), trig ? " triggered" : "", " initial", str(ic));
    std::unique_ptr<Leaf> p;
    if constexpr (!std::is_same_v<T, Array>) { if (dflt) { if (trig) p = std::make_unique<TriggeredIntegratorT<T>>(); else p = std::make_unique<IntegratorT<T>>(); } }
    if (!p) { if (trig) p = std::make_unique<TriggeredIntegratorT<T>>(X::val(ic)); else p = std::make_unique<IntegratorT<T>>(X::val(ic)); }
    Leaf& b = *p;
    S x = X::make(len), y = X::make(len); BoolSignal t;
    if (trig) MUST_PASS(b.connect(bus({{"x", x}, {"trigger", t}}), Bus({y})), "connecting"); else MUST_PASS(b.connect(Bus({x}), Bus({y})), "connecting");
    REQ(y->state_variable(), "the output is a state variable");
    REQ(y->deriv_signal() == &x.impl(), "its derivative is the first input");
    REQ(!(flags(b, x) & Block::Required) && (flags(b, x) & Block::Input), "the input is not required");
    REQ((flags(b, y) & Block::Required) && (flags(b, y) & Block::Output), "the output is required");
    if (trig) REQ(flags(b, t) & Block::Required, "the trigger is required");
    REQ(!b.ready_to_process(), "not ready without its output");
    V held = ic; bool pending = false;
    for (int step = range(1, 8); step > 0; step--)
    {
        double now = num();
        if (coin(80))
        {
            y->clear(); also(" pre");
            MUST_PASS(b.pre_step(now), "pre-step");
            if (pending) held.assign(held.size(), 0);
            pending = false;
            same<T>(y, held, "the output after the pre-step");
        }
        else if (!y->assigned()) { y->clear(); set<T>(y, X::num(len)); }
        for (int k = below(4); k > 0; k--)
        {
            // sub-steps: the state moves, the block is activated
            bool tv = coin(25);
            y->clear(); V v = X::num(len); set<T>(y, v);
            t->clear(); t->set_value(tv);
            x->clear(); if (coin()) set<T>(x, X::num(len));
            also(" act", tv ? "!" : "");
            REQ(b.ready_to_process() || trig, "ready when its output is assigned");
            b._mark_unprocessed();
            EQ(b.process(now), 1u, "runs");
            if (trig && tv) pending = true;
            same<T>(y, v, "the output after the activation");
        }
        if (coin(70)) { held = get<T>(y); also(" post"); MUST_PASS(b.post_step(now), "post-step"); same<T>(y, held, "the output after the post-step"); }
    }
}
void H::run()
{
    int n = g_thorough ? 60000 : 6000;
    for (int c = 0; c < n; c++) if (coin()) one<double>(); else one<Array>();
}
