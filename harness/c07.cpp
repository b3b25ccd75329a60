#include "common.hpp"
#include "src/block/leaf.hpp"
#include "src/block/submodel.hpp"
#include "src/signal/bus.hpp"
#include "src/signal/scalar_signal.hpp"
using namespace pooya;
using namespace H;

struct Ev { char what; int id; double t; };
static std::vector<Ev> g_log;
struct Node;
static int g_next;
struct Base { int id = g_next++; uint report = 0; bool done = false; };
struct L : public Leaf, Base
{
    L(Submodel* p) : Leaf(p, "l") {}
    void pre_step(double t) override { g_log.push_back({'<', id, t}); }
    void post_step(double t) override { g_log.push_back({'>', id, t}); }
    void _mark_unprocessed() override { g_log.push_back({'m', id, 0}); Leaf::_mark_unprocessed(); }
    uint process(double t, bool deep) override { g_log.push_back({deep ? 'P' : 'p', id, t}); if (done) _processed = true; return report; }
    using Block::_processed;
};
struct S : public Submodel, Base
{
    S(Submodel* p) : Submodel(p, "s") {}
    void pre_step(double t) override { g_log.push_back({'<', id, t}); Submodel::pre_step(t); }
    void post_step(double t) override { g_log.push_back({'>', id, t}); Submodel::post_step(t); }
    void _mark_unprocessed() override { g_log.push_back({'m', id, 0}); Submodel::_mark_unprocessed(); }
    uint process(double t, bool deep) override { g_log.push_back({deep ? 'P' : 'p', id, t}); return Submodel::process(t, deep); }
    using Block::_processed;
    using Submodel::_blocks;
};
struct M { Block* b; Base* base; S* sub; std::vector<M> kids; bool processed = false; };

static void build(M& m, int depth, std::vector<std::shared_ptr<Block>>& own, std::string& d)
{
    int n = below(5);
    d += "(";
    for (int i = 0; i < n; i++)
    {
        bool sub = depth > 0 && coin(40);
        bool adopt = coin(40);
        M k;
        k.sub = nullptr;
        S* s = nullptr; L* l = nullptr;
        if (sub) { auto p = std::make_shared<S>(adopt ? nullptr : m.sub); s = p.get(); own.push_back(p); k.b = s; k.base = s; k.sub = s; d += "s"; }
        else { auto p = std::make_shared<L>(adopt ? nullptr : m.sub); l = p.get(); own.push_back(p); k.b = l; k.base = l; d += "l"; }
        if (adopt)
        {
            bool ok = false;
            int how = below(3);
            if (how == 0)
            {
                ScalarSignal x("x"), y("y"), z("z");
                Bus ib({Signal(x)}), ob({Signal(y), Signal(z)});
                MUST_PASS(ok = m.sub->add_block(*k.b, ib, ob), "adding a block");
                REQ(k.b->connected() && k.b->ibus().size() == 1 && k.b->obus().size() == 2, "an added block is connected with the given buses");
                REQ(&k.b->ibus().at(0).impl() == &x.impl() && &k.b->obus().at(1).impl() == &z.impl(), "an added block is connected with the given signals");
            }
            else if (how == 1) MUST_PASS(ok = k.b->set_parent(*m.sub), "setting a parent");
            else
            {
                MUST_PASS(ok = m.sub->link_block(*k.b), "linking a block without a parent");
                REQ(!ok, "a block is not linked to a submodel that is not its parent");
                for (auto* q : m.sub->_blocks) REQ(q != k.b, "a refused block does not appear");
                MUST_PASS(ok = k.b->set_parent(*m.sub), "setting a parent");
            }
            REQ(ok, "a block without a parent is accepted");
        }
        REQ(k.b->parent() == m.sub, "the parent of the block");
        if (sub) build(k, depth - 1, own, d);
        m.kids.push_back(k);
        // repeated links change nothing
        if (coin(30))
        {
            auto& x = m.kids[below(int(m.kids.size()))];
            bool ok = false;
            if (coin()) MUST_PASS(ok = m.sub->link_block(*x.b), "linking again");
            else MUST_PASS(ok = x.b->set_parent(*m.sub), "setting the same parent again");
            REQ(ok, "linking a child again succeeds");
        }
    }
    d += ")";
}
static void check_kids(const M& m)
{
    EQ(m.sub->_blocks.size(), m.kids.size(), "number of children");
    for (size_t i = 0; i < m.kids.size(); i++)
    {
        REQ(m.sub->_blocks[i] == m.kids[i].b, "children in order of addition");
        if (m.kids[i].sub) check_kids(m.kids[i]);
    }
}
static void all(M& m, std::vector<M*>& v) { v.push_back(&m); for (auto& k : m.kids) all(k, v); }
static void expect_walk(const M& m, char what, double t, std::vector<Ev>& v)
{
    v.push_back({what, m.base->id, t});
    for (auto& k : m.kids) expect_walk(k, what, t, v);
}
static void same_log(const std::vector<Ev>& want, const char* what)
{
    for (size_t i = 0; i < want.size() && i < g_log.size(); i++)
    {
        REQ(g_log[i].what == want[i].what && g_log[i].id == want[i].id, what, ": call ", (long)i, " goes to block ", g_log[i].id, " (", std::string(1, g_log[i].what), "), expected block ", want[i].id);
        EQD(g_log[i].t, want[i].t, what, ": time passed on");
    }
    EQ(g_log.size(), want.size(), what, ": number of calls");
}
static uint expect_process(M& m, double t, std::vector<Ev>& v)
{
    v.push_back({'P', m.base->id, t});
    if (!m.sub) { if (m.base->done) m.processed = true; return m.base->report; }
    if (m.processed) return 0;
    uint n = 0;
    bool a = true;
    for (auto& k : m.kids) { n += expect_process(k, t, v); a = a && k.processed; }
    m.processed = a;
    return n;
}
// -> go on
static bool expect_visit(const M& m, uint32_t level, uint32_t max, int& budget, std::vector<std::pair<const Block*, uint32_t>>& v)
{
    if (level > max) return true;
    v.emplace_back(m.b, level);
    if (--budget == 0) return false;
    for (auto& k : m.kids)
        if (level < max && !expect_visit(k, level + 1, max, budget, v)) return false;
    return true;
}
void H::run()
{
    int n = g_thorough ? 8000 : 800;
    for (int c = 0; c < n; c++)
    {
        g_next = 0;
        std::vector<std::shared_ptr<Block>> own;
        M m;
        auto top = std::make_shared<S>(nullptr);
        own.push_back(top);
        m.b = top.get(); m.base = top.get(); m.sub = top.get();
        std::string d;
        ctx("building a random model");
        build(m, 3, own, d);
        ctx("model ", d);
        check_kids(m);
        std::vector<M*> v;
        all(m, v);
        // a block of another model is refused
        {
            S other(nullptr);
            L mine(&other);
            M* x = pick(v);
            if (x != &m)
            {
                bool ok = true;
                auto* p = x->b->parent(); bool conn = x->b->connected();
                switch (below(3))
                {
                case 0: MUST_PASS(ok = other.add_block(*x->b), "adding a block of another model"); break;
                case 1: MUST_PASS(ok = x->b->set_parent(other), "moving a block"); break;
                default: MUST_PASS(ok = other.link_block(*x->b), "linking a block of another model"); break;
                }
                REQ(!ok, "a block with another parent is refused");
                REQ(x->b->parent() == p, "the refused block keeps its parent");
                REQ(other._blocks.size() == 1 && other._blocks[0] == &mine, "the refusing model is unchanged");
                REQ(x->b->connected() == conn, "a refused block is not connected");
                check_kids(m);
            }
        }
        for (int r = 0; r < 6; r++)
        {
            M* x = pick(v);
            double t = num();
            std::vector<Ev> want;
            g_log.clear();
            switch (below(5))
            {
            case 0: x->b->pre_step(t); if (x->sub) expect_walk(*x, '<', t, want); else want.push_back({'<', x->base->id, t}); same_log(want, "pre_step"); break;
            case 1: x->b->post_step(t); expect_walk(*x, '>', t, want); same_log(want, "post_step"); break;
            case 2:
            {
                x->b->_mark_unprocessed();
                expect_walk(*x, 'm', 0, want);
                same_log(want, "marking unprocessed");
                std::vector<M*> u;
                all(*x, u);
                for (auto* y : u) { y->processed = false; REQ(!y->b->processed(), "unprocessed afterwards"); }
                break;
            }
            case 3:
            {
                for (auto* y : v) if (!y->sub) { y->base->report = uint(below(4)); y->base->done = coin(70); }
                uint got = x->b->process(t, true);
                uint w = expect_process(*x, t, want);
                same_log(want, "process");
                EQ(got, w, "reported sum");
                for (auto* y : v) EQ(y->b->processed(), y->processed, "processed flag of block ", y->base->id);
                break;
            }
            default:
            {
                uint32_t level = uint32_t(below(4)), mx = coin(30) ? std::numeric_limits<uint32_t>::max() : uint32_t(below(7));
                int budget = coin() ? -1 : range(1, 6), b2 = budget;
                also(" visit level ", level, " max ", mx, " stop after ", budget);
                std::vector<std::pair<const Block*, uint32_t>> got, w;
                bool goon = true;
                bool res;
                if (coin()) res = x->b->visit([&](Block& b, uint32_t l) { got.emplace_back(&b, l); return --b2 != 0; }, level, mx);
                else res = x->b->const_visit([&](const Block& b, uint32_t l) { got.emplace_back(&b, l); return --b2 != 0; }, level, mx);
                goon = expect_visit(*x, level, mx, budget, w);
                EQ(got.size(), w.size(), "number of blocks visited");
                for (size_t i = 0; i < w.size(); i++)
                {
                    REQ(got[i].first == w[i].first, "order of the visit");
                    EQ(got[i].second, w[i].second, "level of the visit");
                }
                EQ(res, goon, "result of the visit");
            }
            }
        }
        check_kids(m);
    }
}
