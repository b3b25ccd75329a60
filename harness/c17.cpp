#include "ports.hpp"
#include "src/block/extra/derivative.hpp"
#include "src/block/extra/initial_value.hpp"
using namespace P;
template<typename T> static void derivative()
{
    using X = Tr<T>; constexpr bool arr = std::is_same_v<T, Array>; int len = arr ? range(1, 3) : 1;
    bool dflt = !arr && coin(25); V y0 = dflt ? V{0} : X::num(len), x0; double t0 = 0; bool first = true;
    ctx("derivative ", X::name(), " initial", str(y0));
    std::unique_ptr<DerivativeT<T>> p;
    if constexpr (!arr) if (dflt) p = std::make_unique<DerivativeT<T>>();
    if (!p) p = std::make_unique<DerivativeT<T>>(X::val(y0));
    auto& b = *p; auto x = X::make(len), y = X::make(len);
    MUST_PASS(b.connect(Bus({x}), Bus({y})), "connecting");
    double t = num();
    for (int k = range(1, 8); k > 0; k--)
    {
        V v; int subs = range(1, 3);
        if (coin(30)) b.pre_step(t);
        for (int i = 0; i < subs; i++)
        {
            if (coin(70)) t += pos(); else if (coin(30)) t = t0;
            v = X::num(len); x->clear(); y->clear(); set<T>(x, v);
            b._mark_unprocessed(); EQ(b.process(t), 1u, "runs"); also(" act ", t, ":", str(v));
            V want = y0; if (!first && t != t0) for (int j = 0; j < len; j++) want[j] = (v[j] - x0[j]) / (t - t0);
            same<T>(y, want, "the output", 1e-12); same<T>(x, v, "the input");
        }
        if (coin(70)) { x0 = get<T>(x); y0 = get<T>(y); b.post_step(t); t0 = t; first = false; also(" post ", t); }
    }
}
template<typename T> static void initial()
{
    using X = Tr<T>; int len = std::is_same_v<T, Array> ? range(1, 3) : 1;
    ctx("initial value ", X::name()); InitialValueT<T> b; auto x = X::make(len), y = X::make(len);
    MUST_PASS(b.connect(Bus({x}), Bus({y})), "connecting");
    b._mark_unprocessed(); EQ(b.process(0), 0u, "waits for its input at first");
    V v0; bool first = true; uint32_t fx = flags(b, x), fy = flags(b, y);
    REQ(fx & Block::Required, "requires its input at first");
    for (int k = range(1, 6); k > 0; k--)
    {
        V v = X::num(len); bool known = first || coin(60); double now = num();
        x->clear(); y->clear(); if (known) set<T>(x, v);
        if (coin(30)) { b.pre_step(now); also(" pre"); }
        b._mark_unprocessed(); EQ(b.process(now), 1u, "runs"); also(" act", known ? str(v) : " ?");
        if (first) v0 = v;
        first = false; same<T>(y, v0, "the output");
        EQ(flags(b, x), fx & ~uint32_t(Block::Required), "only the requirement is dropped"); EQ(flags(b, y), fy, "the output keeps its role");
        if (coin(40)) { b.post_step(now); also(" post"); }
    }
}
void H::run()
{
    int n = g_thorough ? 100000 : 6000;
    for (int c = 0; c < n; c++)
        switch (below(4))
        {
        case 0: derivative<double>(); break;
        case 1: derivative<Array>(); break;
        case 2: initial<double>(); break;
        default: initial<Array>();
        }
}
