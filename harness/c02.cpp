#include "common.hpp"
#include "src/signal/array_signal.hpp"
#include "src/signal/bool_signal.hpp"
#include "src/signal/bus.hpp"
#include "src/signal/int_signal.hpp"
#include "src/signal/scalar_signal.hpp"
using namespace pooya;
using namespace H;

enum Kind { SC, IN, BO, AR, BU };
static const char* KN[] = {"scalar", "int", "bool", "array", "bus"};
struct Obj { Kind k; int size; std::shared_ptr<SignalImpl> p; };

static std::string valid(const std::string& s)
{
    std::string r = s;
    for (auto& c : r) if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_')) c = '_';
    return r;
}
static std::string rname()
{
    static const std::string A = "abzAZ09_ .-/\xc3\x1f";
    std::string s;
    for (int n = below(6); n > 0; n--) s += A[below(int(A.size()))];
    return s;
}
static Array arr(int n)
{
    Array a(n);
    for (int i = 0; i < n; i++) a[i] = num();
    return a;
}
static Obj make(Kind k)
{
    std::string n = rname();
    int sz = range(1, 4);
    switch (k)
    {
    case SC: return {k, 1, ScalarSignalImpl::create_new(n)};
    case IN: return {k, 0, IntSignalImpl::create_new(n)};
    case BO: return {k, 0, BoolSignalImpl::create_new(n)};
    case AR: return {k, sz, ArraySignalImpl::create_new(sz, n)};
    default: { std::initializer_list<Signal> l{}; return {k, 0, BusImpl::create_new(l, n)}; }
    }
}
template<typename S> struct Tr;
template<> struct Tr<ScalarSignal> { static constexpr Kind k = SC; static double gen(int) { return num(); } };
template<> struct Tr<IntSignal> { static constexpr Kind k = IN; static int gen(int) { return range(-9, 9); } };
template<> struct Tr<BoolSignal> { static constexpr Kind k = BO; static bool gen(int) { return coin(); } };
template<> struct Tr<ArraySignal> { static constexpr Kind k = AR; static Array gen(int n) { return arr(n); } };
template<> struct Tr<Bus> { static constexpr Kind k = BU; };

template<typename S>
void share(S& a, S& b, const Obj& o)
{
    if constexpr (!std::is_same_v<S, Bus>)
    {
        a->clear();
        REQ(!b->assigned(), "clearing through one handle is seen by the other");
        auto v = Tr<S>::gen(o.size);
        MUST_PASS(a->set_value(v), "assignment of a cleared signal");
        REQ(b->assigned(), "assignment through one handle is seen by the other");
        if constexpr (std::is_same_v<S, ArraySignal>) { for (int i = 0; i < o.size; i++) EQD(b->get_value()[i], v[i], "shared value, element ", i); }
        else EQ(b->get_value(), v, "shared value");
        b->clear();
        REQ(!a->assigned(), "clearing through the other handle");
    }
    else EQ(a.size(), b.size(), "size of the shared bus");
}

template<typename S>
void handles(const std::vector<Obj>& objs, S fresh, const std::string& fname)
{
    auto denotes = [](const S& h, const Obj& o) {
        return &h.Signal::impl() == o.p.get() && static_cast<const Signal&>(h).operator->() == o.p.get() && static_cast<SignalImpl*>(&h.impl()) == o.p.get() &&
               static_cast<SignalImpl*>(h.operator->()) == o.p.get();
    };
    Obj cur{Tr<S>::k, 0, fresh.Signal::impl().shared_from_this()};
    if constexpr (std::is_same_v<S, ArraySignal>) cur.size = int(fresh->size());
    S h(fresh);
    for (int n = 0; n < 12; n++)
    {
        const Obj& o = pick(objs);
        int op = below(4);
        also("; ", op == 0 ? "from impl " : op == 1 ? "from signal " : "reset to ", KN[o.k], ":", o.p->name().str());
        bool ok = o.k == Tr<S>::k;
        Signal g(*o.p);
        if (op == 0)
        {
            if (ok) { MUST_PASS(S x(*o.p); REQ(denotes(x, o), "the new handle denotes the signal"); S y(x); share(x, y, o), "construction"); }
            else MUST_THROW(S x(*o.p), "a ", KN[Tr<S>::k], " handle was constructed from a ", KN[o.k], " signal");
        }
        else if (op == 1)
        {
            if (ok) { MUST_PASS(S x(g); S y(x); REQ(denotes(x, o), "the new handle denotes the signal"); REQ(denotes(y, o), "a copy denotes the signal"); share(x, y, o), "construction"); }
            else MUST_THROW(S x(g), "a ", KN[Tr<S>::k], " handle was constructed from a ", KN[o.k], " signal");
        }
        else
        {
            if (ok) { MUST_PASS(h.reset(g), "re-seating on a signal of the same type"); cur = o; }
            else MUST_THROW(h.reset(g), "a ", KN[Tr<S>::k], " handle was re-seated on a ", KN[o.k], " signal");
        }
        REQ(denotes(h, cur), ok ? "the handle denotes its signal" : "a rejected handle keeps its signal");
        S c(h);
        share(c, h, cur);
    }
}

void H::run()
{
    const int N = g_thorough ? 4000 : 250;
    for (int n = 0; n < N; n++)
    {
        std::vector<Obj> objs;
        for (int k = 0; k < 5; k++) objs.push_back(make(Kind(k)));
        for (int i = 0; i < 3; i++) objs.push_back(make(Kind(below(5))));
        std::string fn = rname();
        int fs = range(1, 5);
        ctx("fresh handle named '", fn, "' size ", fs);
        switch (n % 5)
        {
        case 0: {
            ScalarSignal s(fn);
            EQ(s->name().str(), valid(fn), "name"); REQ(!s->assigned(), "a new signal is unassigned"); EQ(int(s->size()), 1, "size"); REQ(!s->state_variable() && !s->deriv_signal(), "a new signal is no state variable");
            ScalarSignal t(fn), u; REQ(&t.impl() != &s.impl() && &u.impl() != &s.impl(), "a new handle denotes a new signal"); EQ(u->name().str(), std::string(), "default name");
            handles(objs, s, fn); break; }
        case 1: {
            IntSignal s(fn);
            EQ(s->name().str(), valid(fn), "name"); REQ(!s->assigned(), "a new signal is unassigned");
            IntSignal t(fn), u; REQ(&t.impl() != &s.impl() && &u.impl() != &s.impl(), "a new handle denotes a new signal");
            handles(objs, s, fn); break; }
        case 2: {
            BoolSignal s(fn);
            EQ(s->name().str(), valid(fn), "name"); REQ(!s->assigned(), "a new signal is unassigned");
            BoolSignal t(fn), u; REQ(&t.impl() != &s.impl() && &u.impl() != &s.impl(), "a new handle denotes a new signal");
            handles(objs, s, fn); break; }
        case 3: {
            ArraySignal s(fs, fn);
            EQ(s->name().str(), valid(fn), "name"); REQ(!s->assigned(), "a new signal is unassigned"); EQ(int(s->size()), fs, "size"); REQ(!s->state_variable() && !s->deriv_signal(), "a new signal is no state variable");
            ArraySignal t(fs, fn), u; REQ(&t.impl() != &s.impl() && &u.impl() != &s.impl(), "a new handle denotes a new signal"); EQ(int(u->size()), 1, "default size");
            MUST_THROW(s->set_value(arr(fs + 1)), "value of another size accepted");
            handles(objs, s, fn); break; }
        default: {
            Bus s({}, fn);
            EQ(s->name().str(), valid(fn), "name"); EQ(int(s.size()), 0, "size");
            Bus t({}, fn); REQ(&t.impl() != &s.impl(), "a new handle denotes a new bus");
            handles(objs, s, fn); break; }
        }
        // state variables
        {
            ScalarSignal s("s"), d("d"), d2("d2");
            int k = below(5);
            ctx("derivative of a scalar: ", KN[k]);
            Obj o = make(Kind(k));
            if (coin(60)) { MUST_PASS(s->set_deriv_signal(d), "scalar derivative"); REQ(s->deriv_signal() == &d.impl(), "the derivative is the given signal"); REQ(s->state_variable(), "it is a state variable"); }
            auto* before = s->deriv_signal();
            bool sv = s->state_variable();
            if (k == SC)
            {
                MUST_PASS(s->set_deriv_signal(Signal(*o.p)), "scalar derivative");
                REQ(static_cast<SignalImpl*>(s->deriv_signal()) == o.p.get() && s->state_variable(), "the derivative is the given signal");
            }
            else
            {
                MUST_THROW(s->set_deriv_signal(Signal(*o.p)), "a scalar accepted a ", KN[k], " signal as derivative");
                REQ(s->deriv_signal() == before && bool(s->state_variable()) == sv, "a rejected derivative leaves the signal as it was");
            }
        }
        {
            int m = range(1, 3), m2 = range(1, 3), k = below(5);
            ArraySignal s(m, "s"), d(m, "d");
            ctx("derivative of an array of size ", m, ": ", KN[k], " of size ", m2);
            Obj o = k == AR ? Obj{AR, m2, ArraySignalImpl::create_new(m2, "x")} : make(Kind(k));
            if (coin(60)) { MUST_PASS(s->set_deriv_signal(d), "array derivative"); REQ(s->deriv_signal() == &d.impl() && s->state_variable(), "the derivative is the given signal"); }
            auto* before = s->deriv_signal();
            if (k == AR && m2 == m)
            {
                MUST_PASS(s->set_deriv_signal(Signal(*o.p)), "array derivative");
                REQ(static_cast<SignalImpl*>(s->deriv_signal()) == o.p.get() && s->state_variable(), "the derivative is the given signal");
            }
            else
            {
                MUST_THROW(s->set_deriv_signal(Signal(*o.p)), "an array of size ", m, " accepted a ", KN[k], " signal of size ", m2, " as derivative");
                REQ(s->deriv_signal() == before && s->state_variable() == before, "a rejected derivative leaves the signal as it was");
            }
        }
    }
}
