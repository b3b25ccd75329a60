#include "common.hpp"
#include "src/signal/array_signal.hpp"
#include "src/signal/bool_signal.hpp"
#include "src/signal/bus.hpp"
#include "src/signal/int_signal.hpp"
#include "src/signal/scalar_signal.hpp"
using namespace pooya;
using namespace H;

static std::string valid(const std::string& s)
{
    std::string r = s;
    for (auto& c : r) if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_')) c = '_';
    return r;
}
struct Node; // the model of a bus: its entries; leaf entries have no sub
struct Entry { std::string label; SignalImpl* sig; std::shared_ptr<Node> sub; };
struct Node { std::vector<Entry> e; };

static std::string rlabel()
{
    static const std::vector<std::string> L = {"a", "b", "ab", "x", "x_y", "a-b", "a b", "sig0", "sig1", "c", "", "z9", "A"};
    return pick(L);
}
template<typename T>
static std::initializer_list<T> il(const std::vector<T>& v)
{
    // an initializer_list of run-time length over storage that outlives the call (libstdc++ layout: pointer, length)
    struct R { const T* p; size_t n; } r{v.data(), v.size()};
    std::initializer_list<T> l;
    static_assert(sizeof(l) == sizeof(r));
    std::memcpy(static_cast<void*>(&l), &r, sizeof(r));
    return l;
}
static Bus build(int depth, std::shared_ptr<Node>& m, std::string& d)
{
    int n = below(6);
    bool labelled = coin(70);
    std::string bname = coin() ? rlabel() : "";
    m = std::make_shared<Node>();
    std::vector<Signal> sigs;
    std::vector<std::pair<std::string, Signal>> prs;
    std::map<SignalImpl*, std::string> names; // expected name after construction
    d += "{";
    for (int i = 0; i < n; i++)
    {
        std::shared_ptr<Node> sub;
        std::string lab = labelled ? rlabel() : cat("sig", i);
        if (labelled && coin(10)) lab += ".q"; // a dot in a label becomes an underscore
        d += lab;
        Signal s = [&]() -> Signal {
            int k = below(6);
            std::string nm = coin(40) ? rlabel() : "";
            if (!m->e.empty() && k == 0) { sub = m->e.back().sub; return Signal(*m->e.back().sig); } // the same signal twice
            if (k == 1) return IntSignal(nm);
            if (k == 2) return BoolSignal(nm);
            if (k == 3) return ArraySignal(2, nm);
            if (k >= 4 && depth > 0) { Bus b = build(depth - 1, sub, d); return b; }
            return ScalarSignal(nm);
        }();
        d += ",";
        if (!names.count(&s.impl())) names[&s.impl()] = s->name().str();
        if (names[&s.impl()].empty()) names[&s.impl()] = valid(lab);
        m->e.push_back({valid(lab), &s.impl(), sub});
        sigs.push_back(s);
        prs.emplace_back(lab, s);
    }
    d += "}";
    std::optional<Bus> b;
    if (labelled) MUST_PASS(b.emplace(Bus(il(prs), bname)), "construction of a labelled bus");
    else MUST_PASS(b.emplace(Bus(il(sigs), bname)), "construction of a bus");
    ctx("bus ", d);
    EQ((*b)->name().str(), valid(bname), "name of the bus");
    for (auto& [p, nm] : names) EQ(p->name().str(), nm, "name of a signal after construction");
    return *b;
}
// the oracle of lookup by label
static const SignalImpl* look(const Node& m, const std::string& label)
{
    auto p = label.find('.');
    std::string head = label.substr(0, p);
    for (auto& e : m.e)
        if (e.label == head)
        {
            if (p == std::string::npos) return e.sig;
            if (!e.sub) return nullptr;
            return look(*e.sub, label.substr(p + 1));
        }
    return nullptr;
}
static void paths(const Node& m, const std::string& pre, std::vector<std::string>& out)
{
    for (auto& e : m.e) { out.push_back(pre + e.label); if (e.sub) paths(*e.sub, pre + e.label + ".", out); }
}
static void index_checks(const Bus& b, const Node& m)
{
    EQ(b.size(), m.e.size(), "size"); EQ(b->size(), m.e.size(), "size");
    size_t i = 0;
    for (auto it = b.begin(); it != b.end(); ++it, ++i)
    {
        EQ(it->first, m.e[i].label, "label ", int(i)); REQ(&it->second.impl() == m.e[i].sig, "signal ", int(i));
        REQ(&b.at(i).impl() == m.e[i].sig && &b[i].impl() == m.e[i].sig && &b->at(i).impl() == m.e[i].sig && &(*b.operator->())[i].impl() == m.e[i].sig, "lookup by index ", int(i));
    }
    EQ(i, m.e.size(), "iteration length");
    for (size_t k : {m.e.size(), m.e.size() + 1, size_t(1) << 40, ~size_t(0)})
    {
        MUST_THROW(b.at(k), "index ", k, " beyond the end accepted"); MUST_THROW(b[k], "index ", k, " beyond the end accepted by []");
    }
    for (auto& e : m.e) if (e.sub) index_checks(Bus(*e.sig), *e.sub);
}
void H::run()
{
    const int N = g_thorough ? 10000 : 400;
    for (int n = 0; n < N; n++)
    {
        std::shared_ptr<Node> m; std::string d;
        ctx("construction");
        Bus b = build(3, m, d);
        ctx("bus ", d);
        index_checks(b, *m);
        std::vector<std::string> q;
        paths(*m, "", q);
        size_t base = q.size();
        for (size_t i = 0; i < base; i++) { q.push_back(q[i] + "."); q.push_back(q[i] + ".a"); q.push_back(q[i] + "q"); q.push_back("." + q[i]); q.push_back(q[i].substr(0, q[i].size() / 2)); }
        for (auto s : {"", ".", "a", "sig0", "sig", "a.b.c", "..", "x.y", "q", "a-b", "x_y"}) q.push_back(s);
        for (auto& l : q)
        {
            ctx("bus ", d, " lookup '", l, "'");
            const SignalImpl* want = look(*m, l);
            auto t = b->try_at(l);
            if (want)
            {
                MUST_PASS(REQ(&b.at(l).impl() == want, "at() yields another signal"), "at() of a present label");
                MUST_PASS(REQ(&b[l].impl() == want, "[] yields another signal"), "[] of a present label");
                MUST_PASS(REQ(&b->at(l).impl() == want && &(*b.operator->())[l].impl() == want, "at() yields another signal"), "at() of a present label");
                REQ(t.has_value() && &t->impl() == want, "try_at() of a present label");
            }
            else
            {
                MUST_THROW(b.at(l), "at() yields a signal for a missing label"); MUST_THROW(b[l], "[] yields a signal for a missing label");
                REQ(!t.has_value(), "try_at() yields a signal for a missing label");
            }
        }
    }
}
