#include "common.hpp"
#include "src/block/leaf.hpp"
#include "src/block/submodel.hpp"
#include "src/signal/array_signal.hpp"
#include "src/signal/bool_signal.hpp"
#include "src/signal/bus.hpp"
#include "src/signal/int_signal.hpp"
#include "src/signal/scalar_signal.hpp"
using namespace pooya;
using namespace H;

struct L : public Leaf
{
    std::vector<double> calls;
    std::function<void(double)> act;
    L(Submodel* p = nullptr) : Leaf(p, "leaf") {}
    void activation_function(double t) override { calls.push_back(t); if (act) act(t); }
    using Block::link_signal;
    using Block::_linked_signals;
};
static void set(ValueSignalImpl& s)
{
    if (auto* p = dynamic_cast<ScalarSignalImpl*>(&s)) p->set_value(num());
    else if (auto* p = dynamic_cast<IntSignalImpl*>(&s)) p->set_value(range(-5, 5));
    else if (auto* p = dynamic_cast<BoolSignalImpl*>(&s)) p->set_value(coin());
    else if (auto* p = dynamic_cast<ArraySignalImpl*>(&s)) p->set_value(Array::Constant(2, num()));
}
static std::string dump(const ValueSignalImpl& s)
{
    if (!s.assigned()) return "-";
    if (auto* p = dynamic_cast<const ScalarSignalImpl*>(&s)) return cat(p->get_value());
    if (auto* p = dynamic_cast<const IntSignalImpl*>(&s)) return cat(p->get_value());
    if (auto* p = dynamic_cast<const BoolSignalImpl*>(&s)) return cat(p->get_value());
    if (auto* p = dynamic_cast<const ArraySignalImpl*>(&s)) return cat(p->get_value()[0], p->get_value()[1]);
    return "?";
}
static Signal mksig()
{
    switch (below(4)) { case 0: return IntSignal(); case 1: return BoolSignal(); case 2: return ArraySignal(2); default: return ScalarSignal(); }
}
static Bus mk(const std::vector<std::pair<std::string, Signal>>& v)
{
    struct R { const void* p; size_t n; } r{v.data(), v.size()};
    std::initializer_list<std::pair<std::string, Signal>> l;
    std::memcpy(static_cast<void*>(&l), &r, sizeof(r));
    return Bus(l);
}
void H::run()
{
    int n = g_thorough ? 40000 : 3000;
    for (int c = 0; c < n; c++)
    {
        ctx("leaf");
        Submodel top(nullptr, "top");
        L leaf(coin() ? &top : nullptr);
        REQ(!leaf.processed(), "a new block is unprocessed");
        int np = below(6);
        std::vector<Signal> sigs;
        for (int i = 0; i < np; i++) sigs.push_back(mksig());
        std::map<ValueSignalImpl*, bool> req;
        std::vector<std::pair<std::string, Signal>> vi, vo;
        std::string d;
        for (int i = 0; i < np; i++)
        {
            auto* p = dynamic_cast<ValueSignalImpl*>(&sigs[i].impl());
            int k = below(4);
            if (k == 0 || k == 2) { vi.emplace_back(std::string(1, char('a' + i)), sigs[i]); req[p] = true; d += cat(" in", i); }
            if (k == 1 || k == 2) { vo.emplace_back(std::string(1, char('a' + i)), sigs[i]); req[p] |= false; d += cat(" out", i); }
        }
        Bus ib = mk(vi), ob = mk(vo);
        if (coin(85)) leaf.connect(ib, ob);
        else req.clear();
        for (int i = 0; i < np; i++)
            if (coin(25))
            {
                // further links with arbitrary roles
                static const uint32_t roles[] = {Block::Internal, Block::Required, Block::Unknown, Block::Internal | Block::Required, Block::Input, Block::Output};
                uint32_t r = roles[below(6)];
                leaf.link_signal(sigs[i], r);
                req[dynamic_cast<ValueSignalImpl*>(&sigs[i].impl())] |= (r & Block::Required) != 0;
                d += cat(" link", i, ":", r);
            }
        if (coin(20))  // some block classes drop roles
            for (auto& [p, f] : leaf._linked_signals) if (coin(40)) { f &= ~uint32_t(Block::Required); req[p.get()] = false; d += " (one link made optional)"; }
        ctx("leaf with", d);
        bool processed = false;
        size_t acts = 0;
        double t = num();
        Signal actout = mksig();
        leaf.act = [&](double) { if (coin(30)) for (auto& s : sigs) if (auto* p = dynamic_cast<ValueSignalImpl*>(&s.impl()); p && !p->assigned() && coin(30)) set(*p); };
        for (int k = 0; k < 12; k++)
        {
            int what = below(10);
            if (what < 4 && np)
            {
                int i = below(np);
                auto* p = dynamic_cast<ValueSignalImpl*>(&sigs[i].impl());
                if (p->assigned()) { p->clear(); also(" clear", i); }
                else { set(*p); also(" set", i); }
            }
            else if (what == 4) { leaf._mark_unprocessed(); processed = false; also(" unmark"); }
            else
            {
                bool ready = true;
                for (auto& [p, r] : req) if (r && !p->assigned()) ready = false;
                EQ(leaf.ready_to_process(), ready, "ready exactly if every required signal is assigned");
                std::vector<std::string> before;
                for (auto& s : sigs) before.push_back(dump(dynamic_cast<ValueSignalImpl&>(s.impl())));
                t += pos();
                also(" process");
                uint r = 99;
                MUST_PASS(r = coin() ? leaf.process(t) : leaf.process(t, coin()), "processing");
                if (ready && !processed)
                {
                    EQ(r, 1u, "a run is reported as one");
                    EQ(leaf.calls.size(), acts + 1, "the activation runs exactly once");
                    EQD(leaf.calls.back(), t, "the activation gets the time");
                    acts++; processed = true;
                }
                else
                {
                    EQ(r, 0u, "no run is reported as zero");
                    EQ(leaf.calls.size(), acts, "the activation does not run");
                    for (int i = 0; i < np; i++) EQ(dump(dynamic_cast<ValueSignalImpl&>(sigs[i].impl())), before[i], "no effect on signals");
                }
            }
            EQ(leaf.processed(), processed, "processed flag");
        }
    }
}
