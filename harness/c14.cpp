#include "ports.hpp"
#include "src/block/extra/add.hpp"
#include "src/block/extra/const.hpp"
#include "src/block/extra/divide.hpp"
#include "src/block/extra/function.hpp"
#include "src/block/extra/gain.hpp"
#include "src/block/extra/multiply.hpp"
#include "src/block/extra/siso_function.hpp"
#include "src/block/extra/so_function.hpp"
#include "src/block/extra/source.hpp"
#include "src/block/extra/sources.hpp"
#include "src/block/extra/subtract.hpp"
using namespace P;
template<typename T> constexpr bool arr = std::is_same_v<T, Array>;
struct Calls { int n = 0; double t = 0; V in, out; const Bus *i = nullptr, *o = nullptr; };
// run block b repeatedly; want computes the expected output from the inputs
template<typename T, typename F> static void runs(Leaf& b, std::vector<typename Tr<T>::S>& in, typename Tr<T>::S& y, int len, F want, Calls* c = nullptr, double tol = 1e-12)
{
    for (int k = range(1, 4); k > 0; k--)
    {
        double now = num(); std::vector<V> v; also(" t ", now);
        if (coin(30)) { b.post_step(num()); also(" post"); }
        y->clear(); if (coin(30)) { b.pre_step(num()); also(" pre"); }
        REQ(!y->assigned(), "the output is not assigned by the step hooks");
        for (auto& x : in) { x->clear(); v.push_back(Tr<T>::num(len)); set<T>(x, v.back()); also(" |", str(v.back())); }
        // a signal connected twice holds its last value; a zero would be a division by zero
        for (size_t i = 0; i < in.size(); i++) v[i] = get<T>(in[i]);
        if (c) { c->n = 0; c->out = Tr<T>::num(len); }
        b._mark_unprocessed();
        EQ(b.process(now), 1u, "runs");
        if (c) { EQ(c->n, 1, "the function is called once"); EQD(c->t, now, "with the time"); }
        same<T>(y, want(now, v), "the output", tol);
        for (size_t i = 0; i < in.size(); i++) same<T>(in[i], v[i], "the input");
        EQ(b.process(now), 0u, "runs once per pass");
    }
}
template<typename T> static Bus make_bus(const std::vector<typename Tr<T>::S>& in)
{
    std::vector<std::pair<std::string, Signal>> l; // labels need not differ nor be given
    int how = range(0, 3); for (size_t i = 0; i < in.size(); i++) l.push_back({how == 0 ? "" : cat("x", how == 1 ? (long)range(0, 1) : (long)i), in[i]});
    return bus(l);
}
template<typename T> static std::vector<typename Tr<T>::S> some(int n, int len) { std::vector<typename Tr<T>::S> v; for (int i = 0; i < n; i++) v.push_back(i && coin(10) ? v[0] : Tr<T>::make(len)); return v; }
template<typename B, typename S> static std::unique_ptr<B> mk(const S& init) { return std::make_unique<B>(init); }

template<typename T, bool mul> static void many()
{
    using BT = std::conditional_t<mul, MultiplyT<T>, AddT<T>>;
    int len = arr<T> ? range(1, 3) : 1, n = range(1, 5);
    bool dflt = !arr<T> && coin(25); V init = dflt ? V{mul ? 1.0 : 0.0} : Tr<T>::num(len);
    ctx(mul ? "multiply " : "add ", Tr<T>::name(), " initial", str(init));
    std::unique_ptr<Leaf> p;
    if constexpr (!arr<T>) if (dflt) p = std::make_unique<BT>();
    if (!p) p = std::make_unique<BT>(Tr<T>::val(init));
    auto in = some<T>(n, len); auto y = Tr<T>::make(len);
    if (coin(10))
    {
        if (coin()) { MUST_THROW(p->connect(Bus(), Bus({y})), "connecting without inputs"); return; }
        auto l = std::vector<std::pair<std::string, Signal>>{{"a", in[0]}, {"b", BoolSignal()}};
        if (coin()) std::swap(l[0], l[1]);
        MUST_THROW(p->connect(bus(l), Bus({y})), "connecting an input of another type"); return;
    }
    MUST_PASS(p->connect(make_bus<T>(in), Bus({y})), "connecting");
    runs<T>(*p, in, y, len, [&](double, const std::vector<V>& v) {
        V r = init; for (auto& x : v) for (int i = 0; i < len; i++) if (mul) r[i] *= x[i]; else r[i] += x[i];
        return r; });
}
template<typename T, bool div> static void two()
{
    using BT = std::conditional_t<div, DivideT<T>, SubtractT<T>>;
    int len = arr<T> ? range(1, 3) : 1; ctx(div ? "divide " : "subtract ", Tr<T>::name());
    auto p = std::make_unique<BT>(); std::vector<typename Tr<T>::S> in = {Tr<T>::make(len), Tr<T>::make(len)}; auto y = Tr<T>::make(len);
    MUST_PASS(p->connect(make_bus<T>(in), Bus({y})), "connecting");
    runs<T>(*p, in, y, len, [&](double, const std::vector<V>& v) { V r = v[0]; for (int i = 0; i < len; i++) r[i] = div ? v[0][i] / v[1][i] : v[0][i] - v[1][i]; return r; });
}
template<typename T, typename G> static void gain()
{
    int len = arr<T> ? range(1, 3) : 1; double k = std::is_same_v<G, int> ? range(-9, 9) : num(); ctx("gain ", Tr<T>::name(), " ", k);
    GainT<T, G> p{G(k)}; EQD(double(p.gain()), k, "gain");
    std::vector<typename Tr<T>::S> in = {Tr<T>::make(len)}; auto y = Tr<T>::make(len);
    MUST_PASS(p.connect(make_bus<T>(in), Bus({y})), "connecting");
    runs<T>(p, in, y, len, [&](double, const std::vector<V>& v) { V r = v[0]; for (auto& x : r) x *= k; return r; });
}
template<typename T> static void fixed()
{
    int len = arr<T> ? range(1, 3) : 1; V c = Tr<T>::num(len); ctx("const ", Tr<T>::name(), str(c));
    ConstT<T> p(Tr<T>::val(c)); std::vector<typename Tr<T>::S> in; auto y = Tr<T>::make(len);
    MUST_PASS(p.connect(Bus(), Bus({y})), "connecting");
    runs<T>(p, in, y, len, [&](double, const std::vector<V>&) { return c; });
}
template<typename T> static void source()
{
    int len = arr<T> ? range(1, 3) : 1; ctx("source ", Tr<T>::name());
    Calls c; SourceT<T> p([&](double t) -> T { c.n++; c.t = t; return Tr<T>::val(c.out); });
    std::vector<typename Tr<T>::S> in; auto y = Tr<T>::make(len);
    MUST_PASS(p.connect(Bus(), Bus({y})), "connecting");
    runs<T>(p, in, y, len, [&](double, const std::vector<V>&) { return c.out; }, &c, 0);
}
template<typename T> static void siso()
{
    int len = arr<T> ? range(1, 3) : 1; ctx("siso function ", Tr<T>::name());
    Calls c; T keep;
    SISOFunctionT<T> p([&](double t, typename Types<T>::GetValue x) -> typename Types<T>::SetValue { c.n++; c.t = t; c.in = Tr<T>::of(x); keep = Tr<T>::val(c.out); return keep; });
    std::vector<typename Tr<T>::S> in = {Tr<T>::make(len)}; auto y = Tr<T>::make(len);
    MUST_PASS(p.connect(make_bus<T>(in), Bus({y})), "connecting");
    runs<T>(p, in, y, len, [&](double, const std::vector<V>& v) { REQ(c.in == v[0], "called with the input"); return c.out; }, &c, 0);
}
template<typename T> static void so()
{
    int len = arr<T> ? range(1, 3) : 1, n = range(0, 4); ctx("so function ", Tr<T>::name(), " of ", n);
    Calls c; T keep; auto in = some<T>(n, len); auto y = Tr<T>::make(len);
    bool limit = coin();
    auto f = [&](double t, const Bus& b) -> typename Types<T>::SetValue {
        c.n++; c.t = t; EQ((int)b->size(), n, "bus size");
        for (int i = 0; i < n; i++) REQ(&b.at(std::size_t(i)).impl() == &in[i].impl(), "input ", i);
        keep = Tr<T>::val(c.out); return keep; };
    auto p = limit ? std::make_unique<SOFunctionT<T>>(f, nullptr, "", n) : std::make_unique<SOFunctionT<T>>(f);
    MUST_PASS(p->connect(make_bus<T>(in), Bus({y})), "connecting");
    runs<T>(*p, in, y, len, [&](double, const std::vector<V>&) { return c.out; }, &c, 0);
}
static void function()
{
    int n = range(0, 3), m = range(0, 3); bool srcs = coin(); if (srcs) n = 0;
    ctx(srcs ? "sources" : "function", " ", n, " to ", m);
    auto in = some<double>(n, 1); std::vector<ScalarSignal> out; for (int i = 0; i < m; i++) out.push_back(ScalarSignal());
    Calls c; V v;
    auto check = [&](const Bus& b, const std::vector<ScalarSignal>& want, const char* what) {
        EQ(b->size(), want.size(), what, " bus size"); for (size_t i = 0; i < want.size(); i++) REQ(&b.at(i).impl() == &want[i].impl(), what, " ", (long)i); };
    auto body = [&](double t, const Bus& ob) { c.n++; c.t = t; check(ob, out, "output"); v.clear(); for (size_t i = 0; i < out.size(); i++) { v.push_back(num()); out[i]->set_value(v.back()); } };
    std::unique_ptr<Leaf> p;
    if (srcs) { auto f = [&](const Bus& ob, double t) { body(t, ob); }; if (coin()) p = std::make_unique<Sources>(f); else p = std::make_unique<Sources>(f, nullptr, "", m); }
    else { auto f = [&](double t, const Bus& ib, const Bus& ob) { check(ib, in, "input"); body(t, ob); }; if (coin()) p = std::make_unique<Function>(f); else p = std::make_unique<Function>(f, nullptr, "", n, m); }
    MUST_PASS(p->connect(make_bus<double>(in), make_bus<double>(out)), "connecting");
    for (int k = range(1, 3); k > 0; k--)
    {
        double now = num(); for (auto& y : out) y->clear();
        for (auto& x : in) { x->clear(); x->set_value(num()); }
        c.n = 0; p->_mark_unprocessed(); EQ(p->process(now), 1u, "runs");
        EQ(c.n, 1, "the function is called once"); EQD(c.t, now, "with the time");
        for (size_t i = 0; i < out.size(); i++) same<double>(out[i], {v[i]}, "output");
        EQ(p->process(now), 0u, "runs once"); EQ(c.n, 1, "not called again");
    }
}
void H::run()
{
    int n = g_thorough ? 80000 : 8000;
    for (int c = 0; c < n; c++)
        switch (below(22))
        {
        case 0: case 1: many<double, false>(); break;
        case 2: case 3: many<double, true>(); break;
        case 4: many<Array, false>(); break;
        case 5: many<Array, true>(); break;
        case 6: two<double, false>(); break;
        case 7: two<double, true>(); break;
        case 8: two<Array, false>(); break;
        case 9: two<Array, true>(); break;
        case 10: gain<double, double>(); break;
        case 11: gain<int, int>(); break;
        case 12: gain<Array, double>(); break;
        case 13: if (coin()) fixed<double>(); else fixed<Array>(); break;
        case 14: source<double>(); break;
        case 15: source<Array>(); break;
        case 16: source<int>(); break;
        case 17: siso<double>(); break;
        case 18: siso<Array>(); break;
        case 19: so<double>(); break;
        case 20: so<Array>(); break;
        default: function();
        }
}
