#include "ports.hpp"
#include "src/block/extra/delay.hpp"
using namespace P;
template<typename T> static void one()
{
    using X = Tr<T>; int len = std::is_same_v<T, Array> ? range(1, 3) : 1;
    double life = coin(10) ? 0 : pos() * range(1, 4);
    ctx("delay ", X::name(), " lifespan ", life);
    DelayT<T> b(life); auto x = X::make(len), x0 = X::make(len), y = X::make(len); ScalarSignal d;
    std::vector<std::pair<std::string, Signal>> l = {{"in", x}, {"delay", d}, {"initial", x0}}; shuffle(l);
    MUST_PASS(b.connect(bus(l), Bus({y})), "connecting");
    for (auto* s : {static_cast<SignalImpl*>(&x.impl()), static_cast<SignalImpl*>(&x0.impl())}) REQ(s != nullptr, "signal");
    std::vector<double> ht; std::vector<V> hx; double t = num();
    for (int k = range(1, 30); k > 0; k--)
    {
        // sub-steps
        for (int i = range(0, 3); i > 0; i--)
        {
            double now = t + (coin(70) ? pos() : 0), dv; V v = X::num(len), v0 = X::num(len);
            switch (below(6))
            {
            case 0: dv = life; break;
            case 1: dv = 0; break;
            case 2: dv = ht.empty() ? life : now - pick(ht); break;       // exactly a recorded time
            default: dv = life * below(1000) / 1000.0; break;
            }
            if (dv > life) dv = life;
            if (coin(5)) dv = -pos();
            x->clear(); x0->clear(); d->clear(); y->clear(); set<T>(x, v); set<T>(x0, v0); d->set_value(dv);
            if (coin(20)) b.pre_step(now);
            b._mark_unprocessed(); EQ(b.process(now), 1u, "runs"); also(" act ", now, "-", dv);
            double q = now - dv; V want; double tol = 0;
            if (ht.empty() || q <= ht.front()) want = v0;
            else if (q >= ht.back()) want = hx.back();
            else
            {
                size_t m = 1; while (ht[m] < q) m++;
                want = hx[m]; tol = 1e-9;
                for (int j = 0; j < len; j++) want[j] = hx[m - 1][j] + (hx[m][j] - hx[m - 1][j]) * (q - ht[m - 1]) / (ht[m] - ht[m - 1]);
            }
            same<T>(y, want, "the output", tol); same<T>(x, v, "the input");
        }
        // a step
        if (!ht.empty() || coin()) t += coin(90) ? pos() * (coin(20) ? 3 : 0.25) : life;
        if (!ht.empty() && !(t > ht.back())) t = ht.back() + 0.5;
        V v = X::num(len); x->clear(); set<T>(x, v);
        b.post_step(t); ht.push_back(t); hx.push_back(v); also(" post ", t, ":", str(v));
    }
}
void H::run()
{
    int n = g_thorough ? 40000 : 3000;
    for (int c = 0; c < n; c++) if (coin()) one<double>(); else one<Array>();
}
