#include "common.hpp"
#include "src/block/singlei.hpp"
#include "src/block/singleo.hpp"
#include "src/block/leaf.hpp"
#include "src/block/submodel.hpp"
#include "src/signal/array_signal.hpp"
#include "src/signal/bool_signal.hpp"
#include "src/signal/bus.hpp"
#include "src/signal/int_signal.hpp"
#include "src/signal/scalar_signal.hpp"
using namespace pooya;
using namespace H;

static constexpr uint32_t IN = Block::Input, OUT = Block::Output, REQD = Block::Required;
struct MyLeaf : public Leaf
{
    using Leaf::Leaf;
    MyLeaf(uint16_t ni, uint16_t no) : Leaf(nullptr, "leaf", ni, no) {}
};
struct MySub : public Submodel
{
    MySub(uint16_t ni, uint16_t no) : Submodel(nullptr, "sub", ni, no) {}
};
template<typename T>
struct SI_ : public SingleInputT<T>
{
    SI_(uint16_t ni, uint16_t no) : SingleInputT<T>(nullptr, "si", ni, no) {}
    auto* port() { return &this->_s_in.impl(); }
};
template<typename T>
struct SO_ : public SingleOutputT<T, Leaf>
{
    SO_(uint16_t ni, uint16_t no) : SingleOutputT<T, Leaf>(nullptr, "so", ni, no) {}
    auto* port() { return &this->_s_out.impl(); }
};
template<typename T>
struct SISO_ : public SingleOutputT<T, SingleInputT<T>>
{
    SISO_(uint16_t ni, uint16_t no) : SingleOutputT<T, SingleInputT<T>>(nullptr, "siso", ni, no) {}
    auto* iport() { return &this->_s_in.impl(); }
    auto* oport() { return &this->_s_out.impl(); }
};

static Signal rsig(const std::vector<Signal>& pool)
{
    if (!pool.empty() && coin(45)) return Signal(pick(pool).impl());
    switch (below(5))
    {
    case 0: return IntSignal();
    case 1: return BoolSignal();
    case 2: return ArraySignal(2);
    case 3: return Bus({ScalarSignal("p"), IntSignal("q")});
    default: return ScalarSignal();
    }
}
static std::vector<std::pair<std::string, Signal>> rbus(int n, std::vector<Signal>& pool, bool& hasbus)
{
    std::vector<std::pair<std::string, Signal>> v;
    for (int i = 0; i < n; i++)
    {
        Signal s = rsig(pool);
        pool.push_back(s);
        v.emplace_back(std::string(1, char('a' + i)), s);
    }
    return v;
}
static Bus mk(const std::vector<std::pair<std::string, Signal>>& v)
{
    struct R { const void* p; size_t n; } r{v.data(), v.size()};
    std::initializer_list<std::pair<std::string, Signal>> l;
    std::memcpy(static_cast<void*>(&l), &r, sizeof(r));
    return Bus(l);
}
static std::string kind(const Signal& s)
{
    auto* p = &s.impl();
    if (dynamic_cast<ScalarSignalImpl*>(p)) return "s";
    if (dynamic_cast<IntSignalImpl*>(p)) return "i";
    if (dynamic_cast<BoolSignalImpl*>(p)) return "b";
    if (dynamic_cast<ArraySignalImpl*>(p)) return "A";
    return "B";
}
static void check_links(const Block& b, const std::map<SignalImpl*, uint32_t>& want, const char* when)
{
    std::map<SignalImpl*, uint32_t> got;
    for (auto& [p, f] : b.linked_signals())
    {
        REQ(p.get() != nullptr, "a linked signal exists");
        REQ(!got.count(p.get()), when, ": a signal is linked twice");
        got[p.get()] = f;
    }
    EQ(got.size(), want.size(), when, ": number of linked signals");
    for (auto& [p, f] : want)
    {
        REQ(got.count(p), when, ": a value signal of the bus is not linked");
        EQ(got[p], f, when, ": roles of a linked signal");
    }
}
static bool is_value(const Signal& s) { return dynamic_cast<ValueSignalImpl*>(&s.impl()) != nullptr; }

static void plain_case()
{
    std::vector<Signal> pool;
    bool hb = false;
    int ni = below(6), no = below(6);
    auto vi = rbus(ni, pool, hb), vo = rbus(no, pool, hb);
    auto lim = [](int n) -> uint16_t { int k = below(10); return k < 5 ? uint16_t(n) : k < 8 ? Block::NoIOLimit : uint16_t(below(7)); };
    uint16_t li = lim(ni), lo = lim(no);
    std::string d;
    auto idx = [&](const Signal& s) { return cat(long(std::find_if(pool.begin(), pool.end(), [&](const Signal& q) { return &q.impl() == &s.impl(); }) - pool.begin())); };
    for (auto& [l, s] : vi) d += kind(s) + idx(s) + " ";
    d += "-> ";
    for (auto& [l, s] : vo) d += kind(s) + idx(s) + " ";
    ctx("block demanding ", int(li), "/", int(lo), " ports connected to ", d, "(same number = same signal, B = bus)");
    Bus ib = mk(vi), ob = mk(vo);
    std::unique_ptr<Block> bp;
    if (coin(80)) bp = std::make_unique<MyLeaf>(li, lo);
    else bp = std::make_unique<MySub>(li, lo);
    Block& b = *bp;
    REQ(!b.connected(), "a new block is not connected");
    std::map<SignalImpl*, uint32_t> want;
    check_links(b, want, "before connecting");
    bool ok = (li == Block::NoIOLimit || li == ni) && (lo == Block::NoIOLimit || lo == no);
    if (!ok)
    {
        auto *i0 = &b.ibus().impl(), *o0 = &b.obus().impl();
        MUST_THROW(b.connect(ib, ob), "wrong number of signals is rejected");
        REQ(!b.connected(), "still not connected after a rejected connection");
        REQ(&b.ibus().impl() == i0 && &b.obus().impl() == o0, "buses unchanged after a rejected connection");
        check_links(b, want, "after a rejected connection");
        // a later correct connection still works
        std::vector<Signal> p2;
        vi = rbus(li == Block::NoIOLimit ? 2 : li, p2, hb);
        vo = rbus(lo == Block::NoIOLimit ? 2 : lo, p2, hb);
        also(" rejected, then connected correctly");
        ib = Bus(mk(vi)), ob = Bus(mk(vo));
        ni = int(vi.size()), no = int(vo.size());
    }
    Bus ib2 = ok ? Bus(ib) : mk(vi), ob2 = ok ? Bus(ob) : mk(vo);
    bool res = false;
    MUST_PASS(res = b.connect(ib2, ob2), "a correct connection is accepted");
    REQ(res, "a correct connection reports success");
    REQ(b.connected(), "connected afterwards");
    REQ(&b.ibus().impl() == &ib2.impl(), "the input bus is the given one");
    REQ(&b.obus().impl() == &ob2.impl(), "the output bus is the given one");
    for (auto& [l, s] : vi) if (is_value(s)) want[&s.impl()] |= IN | REQD;
    for (auto& [l, s] : vo) if (is_value(s)) want[&s.impl()] |= OUT;
    check_links(b, want, "after connecting");
    auto again = [&] {
        auto *i0 = &b.ibus().impl(), *o0 = &b.obus().impl();
        switch (below(3))
        {
        case 0: MUST_THROW(b.connect(ib2, ob2), "a second connection is rejected"); break;
        case 1: MUST_THROW(b.connect(), "a second, empty connection is rejected"); break;
        default: MUST_THROW(b.connect(ob2, ib2), "a second, swapped connection is rejected"); break;
        }
        REQ(b.connected() && &b.ibus().impl() == i0 && &b.obus().impl() == o0, "unchanged after a rejected second connection");
        check_links(b, want, "after a rejected second connection");
    };
    if (coin(30)) again();
    for (int k = 0; k < 8; k++)
    {
        bool in = coin();
        auto& v = in ? vi : vo;
        int i = below(int(v.size()) + 2);
        int how = below(4);
        std::string lab(1, char('a' + i));
        bool exists = i < int(v.size());
        also(in ? " input(" : " output(", how < 2 ? cat(i) : lab, ")");
        auto access = [&]() -> Signal {
            if (in) switch (how) { case 0: return b.input(std::size_t(i)); case 1: return b.input(i); case 2: return b.input(lab); default: return b.input(lab.c_str()); }
            switch (how) { case 0: return b.output(std::size_t(i)); case 1: return b.output(i); case 2: return b.output(lab); default: return b.output<std::string>(lab); }
        };
        if (!exists) { MUST_THROW(access(), "access to a port that does not exist is rejected"); }
        else
        {
            std::optional<Signal> s;
            MUST_PASS(s.emplace(access()), "access to an existing port");
            REQ(&s->impl() == &v[i].second.impl(), "the signal at that port");
            if (is_value(*s)) want[&s->impl()] |= in ? (IN | REQD) : OUT;
        }
        check_links(b, want, "after a port access");
    }
    if (coin(30)) again();
}

template<typename T>
static Signal typed(bool right)
{
    auto make = [](int k) -> Signal { return k == 0 ? Signal(ScalarSignal()) : k == 1 ? Signal(IntSignal()) : k == 2 ? Signal(BoolSignal()) : Signal(ArraySignal(2)); };
    constexpr int me = std::is_same_v<T, double> ? 0 : std::is_same_v<T, int> ? 1 : std::is_same_v<T, bool> ? 2 : 3;
    return make(right ? me : (me + 1 + below(3)) % 4);
}
static Bus bus_of(const std::vector<Signal>& v)
{
    std::vector<std::pair<std::string, Signal>> p;
    for (size_t i = 0; i < v.size(); i++) p.emplace_back(std::string(1, char('a' + i)), v[i]);
    return mk(p);
}
template<typename B_, typename T>
static void single(bool ins, bool outs, const char* nm)
{
    // constructors: exactly one port
    uint16_t ci = uint16_t(below(4)), co = uint16_t(below(4));
    if (coin(10)) ci = Block::NoIOLimit;
    if (coin(10)) co = Block::NoIOLimit;
    ctx(nm, " with ", int(ci), "/", int(co), " ports");
    bool okc = (!ins || ci == 1) && (!outs || co == 1);
    std::unique_ptr<B_> b;
    if (!okc) { MUST_THROW(b = std::make_unique<B_>(ci, co), "more or fewer than one port is rejected"); return; }
    MUST_PASS(b = std::make_unique<B_>(ci, co), "one port is accepted");
    std::vector<Signal> vi, vo;
    bool ri = !ins || coin(80), ro = !outs || coin(80);
    for (int i = 0; i < (ci == Block::NoIOLimit ? 2 : ci); i++) vi.push_back(typed<T>(!ins || ri));
    for (int i = 0; i < (co == Block::NoIOLimit ? 2 : co); i++) vo.push_back(typed<T>(!outs || ro));
    also(" matching types ", ri, " ", ro);
    bool badn = coin(15);
    if (badn)
    {
        bool which = coin();
        uint16_t c = which ? ci : co;
        if (c == Block::NoIOLimit) return;
        auto& v = which ? vi : vo;
        if (coin() && !v.empty()) v.pop_back(); else v.push_back(typed<T>(true));
        also(" with a wrong number of signals");
        MUST_THROW(b->connect(bus_of(vi), bus_of(vo)), "wrong number of signals is rejected");
        return;
    }
    Bus ib = bus_of(vi), ob = bus_of(vo);
    if (!ri || !ro) { MUST_THROW(b->connect(ib, ob), "a signal of another type is rejected"); return; }
    bool r = false;
    MUST_PASS(r = b->connect(ib, ob), "connection");
    REQ(r && b->connected(), "connected");
    REQ(&b->ibus().impl() == &ib.impl() && &b->obus().impl() == &ob.impl(), "the given buses");
    std::map<SignalImpl*, uint32_t> want;
    for (auto& s : vi) want[&s.impl()] |= IN | REQD;
    for (auto& s : vo) want[&s.impl()] |= OUT;
    check_links(*b, want, "single port block");
    if constexpr (std::is_base_of_v<SingleInputT<T>, B_> && std::is_base_of_v<SingleOutputT<T, SingleInputT<T>>, B_>)
    {
        REQ(static_cast<SignalImpl*>(b->iport()) == &vi[0].impl(), "uses the first input signal");
        REQ(static_cast<SignalImpl*>(b->oport()) == &vo[0].impl(), "uses the first output signal");
    }
    else REQ(static_cast<SignalImpl*>(b->port()) == (ins ? &vi[0].impl() : &vo[0].impl()), "uses the first signal");
    MUST_THROW(b->connect(ib, ob), "a second connection is rejected");
}
template<typename T>
static void singles(const char* t)
{
    single<SI_<T>, T>(true, false, (std::string("single-input block of ") + t).c_str());
    single<SO_<T>, T>(false, true, (std::string("single-output block of ") + t).c_str());
    single<SISO_<T>, T>(true, true, (std::string("single-input single-output block of ") + t).c_str());
}
void H::run()
{
    int n = g_thorough ? 16000 : 1000;
    for (int i = 0; i < n; i++) plain_case();
    for (int i = 0; i < n / 8; i++) { singles<double>("double"); singles<int>("int"); singles<bool>("bool"); singles<Array>("Array"); }
}
