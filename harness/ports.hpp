// Typed ports: values of every type as vectors of numbers.
#pragma once
#include "common.hpp"
#include "src/block/leaf.hpp"
#include "src/block/submodel.hpp"
#include "src/signal/array_signal.hpp"
#include "src/signal/bool_signal.hpp"
#include "src/signal/bus.hpp"
#include "src/signal/int_signal.hpp"
#include "src/signal/scalar_signal.hpp"
namespace P
{
using namespace pooya;
using namespace H;
using V = std::vector<double>;
template<typename T> struct Tr;
template<> struct Tr<double>
{
    using S = ScalarSignal; static const char* name() { return "scalar"; }
    static S make(int) { return S(); }
    static double val(const V& v) { return v[0]; }
    static V num(int) { return {H::num()}; }
    static V of(double x) { return {x}; }
};
template<> struct Tr<int>
{
    using S = IntSignal; static const char* name() { return "int"; }
    static S make(int) { return S(); }
    static int val(const V& v) { return int(v[0]); }
    static V num(int) { return {double(range(-100, 100))}; }
    static V of(int x) { return {double(x)}; }
};
template<> struct Tr<bool>
{
    using S = BoolSignal; static const char* name() { return "bool"; }
    static S make(int) { return S(); }
    static bool val(const V& v) { return v[0] != 0; }
    static V num(int) { return {double(coin())}; }
    static V of(bool x) { return {double(x)}; }
};
template<> struct Tr<Array>
{
    using S = ArraySignal; static const char* name() { return "array"; }
    static S make(int n) { return S(n); }
    static Array val(const V& v) { Array a(long(v.size())); for (size_t i = 0; i < v.size(); i++) a[long(i)] = v[i]; return a; }
    static V num(int n) { V v(n); for (auto& x : v) x = H::num(); return v; }
    static V of(const Array& a) { return V(a.data(), a.data() + a.size()); }
};
template<typename T> void set(typename Tr<T>::S& s, const V& v) { s->set_value(Tr<T>::val(v)); }
template<typename T> V get(const typename Tr<T>::S& s) { return Tr<T>::of(s->get_value()); }
// values of different magnitude may not be exact: relative comparison
template<typename T> void same(const typename Tr<T>::S& s, const V& want, const std::string& what, double tol = 0)
{
    REQ(s->assigned(), what, " is assigned");
    V got = get<T>(s);
    EQ(got.size(), want.size(), "size of ", what);
    for (size_t i = 0; i < want.size(); i++)
        if (tol == 0 || !std::isfinite(want[i])) EQD(got[i], want[i], what, ", entry ", (long)i);
        else NEART(got[i], want[i], tol * (1 + std::fabs(want[i])), what, ", entry ", (long)i);
}
inline uint32_t flags(const Block& b, const Signal& s)
{
    uint32_t f = 0; int n = 0;
    for (auto& [p, fl] : b.linked_signals()) if (static_cast<SignalImpl*>(p.get()) == &s.impl()) { f = fl; n++; }
    REQ(n <= 1, "a signal is linked once");
    return f;
}
inline std::string str(const V& v) { std::string s; for (double x : v) s += cat(" ", x); return s; }
inline Bus bus(const std::vector<std::pair<std::string, Signal>>& v)
{
    // an initializer list of run-time length
    switch (v.size())
    {
    case 0: return Bus();
    case 1: return Bus({v[0]});
    case 2: return Bus({v[0], v[1]});
    case 3: return Bus({v[0], v[1], v[2]});
    case 4: return Bus({v[0], v[1], v[2], v[3]});
    default: return Bus({v[0], v[1], v[2], v[3], v[4]});
    }
}
}
