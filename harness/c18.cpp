#include "ports.hpp"
#include "src/block/extra/bus_memory.hpp"
#include "src/block/extra/bus_pipe.hpp"
#include "src/block/extra/memory.hpp"
#include "src/block/extra/pipe.hpp"
using namespace P;
struct Val { std::string path; int kind; int len; Signal in, out; };
static const char* kinds[] = {"scalar", "int", "bool", "array"};
static Signal make(int kind, int len) { switch (kind) { case 0: return ScalarSignal(); case 1: return IntSignal(); case 2: return BoolSignal(); default: return ArraySignal(len); } }
struct Tree { std::vector<Val> vals; std::vector<std::string> buses; };
// a random bus and a bus of the same shape (other order, more signals)
static std::pair<Bus, Bus> tree(Tree& t, const std::string& prefix, int depth)
{
    static const char* names[] = {"a", "b", "ab", "x", "sig0", "B"};
    std::vector<std::string> labels(std::begin(names), std::end(names)); shuffle(labels); labels.resize(range(depth ? 0 : 1, 4));
    std::vector<std::pair<std::string, Signal>> in, out;
    for (auto& l : labels)
    {
        if (depth < 2 && coin(30))
        {
            t.buses.push_back(prefix + l + "."); auto [i, o] = tree(t, prefix + l + ".", depth + 1);
            in.push_back({l, i}); out.push_back({l, o});
        }
        else
        {
            int kind = below(4), len = kind == 3 ? range(1, 3) : 1; Val v{prefix + l, kind, len, make(kind, len), make(kind, len)};
            in.push_back({l, v.in}); out.push_back({l, v.out}); t.vals.push_back(v);
        }
    }
    shuffle(out); if (coin(30) && out.size() < 5) out.insert(out.begin() + below(int(out.size()) + 1), {"more", ScalarSignal()});
    return {bus(in), bus(out)};
}
template<typename T> static V num_of(Val& v, bool set_it)
{
    typename Tr<T>::S s(v.in); s->clear(); V x = Tr<T>::num(v.len); if (set_it) set<T>(s, x);
    return x;
}
static V set_in(Val& v) { switch (v.kind) { case 0: return num_of<double>(v, true); case 1: return num_of<int>(v, true); case 2: return num_of<bool>(v, true); default: return num_of<Array>(v, true); } }
static V any(Val& v) { switch (v.kind) { case 0: return Tr<double>::num(1); case 1: return Tr<int>::num(1); case 2: return Tr<bool>::num(1); default: return Tr<Array>::num(v.len); } }
static void out_is(Val& v, const V& want, const std::string& what)
{
    switch (v.kind)
    {
    case 0: same<double>(ScalarSignal(v.out), want, what + v.path); break;
    case 1: same<int>(IntSignal(v.out), want, what + v.path); break;
    case 2: same<bool>(BoolSignal(v.out), want, what + v.path); break;
    default: same<Array>(ArraySignal(v.out), want, what + v.path);
    }
}
static BusMemory::Value value(Val& v, const V& x) { switch (v.kind) { case 0: return Tr<double>::val(x); case 1: return Tr<int>::val(x); case 2: return Tr<bool>::val(x); default: return Tr<Array>::val(x); } }
template<template<typename> class BT> static bool is(Block* b, int kind)
{
    switch (kind) { case 0: return dynamic_cast<BT<double>*>(b); case 1: return dynamic_cast<BT<int>*>(b); case 2: return dynamic_cast<BT<bool>*>(b); default: return dynamic_cast<BT<Array>*>(b); }
}
template<typename F> static void listed(const std::vector<std::string>& v, F f)
{
    switch (v.size()) { case 0: f({}); break; case 1: f({v[0]}); break; case 2: f({v[0], v[1]}); break; default: f({v[0], v[1], v[2]}); }
}
static bool has(const std::vector<std::string>& v, const std::string& s) { return std::find(v.begin(), v.end(), s) != v.end(); }
static void one()
{
    Tree t; auto [ib, ob] = tree(t, "", 0); bool mem = coin(60);
    std::vector<std::string> excl;
    for (int i = below(3); i > 0; i--)
    {
        std::vector<std::string> c; for (auto& v : t.vals) c.push_back(v.path);
        for (auto& b : t.buses) { c.push_back(b); c.push_back(b); c.push_back(b.substr(0, b.size() - 1)); }
        c.push_back("zz"); c.push_back("a"); c.push_back("x."); c.push_back("B.a");
        auto e = pick(c); if (!has(excl, e)) excl.push_back(e);
    }
    // a value is excluded by its label, or by that of a bus around it
    std::vector<Val> want;
    for (auto& v : t.vals)
    {
        bool out = has(excl, v.path);
        for (auto& b : t.buses) if (has(excl, b) && v.path.compare(0, b.size(), b) == 0) out = true;
        if (!out) want.push_back(v);
    }
    ctx(mem ? "bus memory" : "bus pipe", " of"); for (auto& v : t.vals) also(" ", v.path, ":", kinds[v.kind]);
    also(" without"); for (auto& e : excl) also(" ", e);
    Submodel top; std::map<size_t, V> init; bool unused = false; std::unique_ptr<BusBlockBuilder> p;
    if (mem)
    {
        std::vector<BusMemory::LabelValue> l;
        also(" initially");
        for (size_t i = 0; i < want.size() && l.size() < 3; i++) if (coin(40)) { init[i] = any(want[i]); l.push_back({want[i].path, value(want[i], init[i])}); also(" ", want[i].path, "=", str(init[i])); }
        if (l.size() < 3 && coin(12)) { l.push_back({pick(std::vector<std::string>{"none", "more", "a.none", "q."}), 1.5}); unused = true; also(" unused"); }
        listed(excl, [&](std::initializer_list<std::string> ex) {
            switch (l.size()) { case 0: p = std::make_unique<BusMemory>(top, std::initializer_list<BusMemory::LabelValue>{}, ex); break; case 1: p = std::make_unique<BusMemory>(top, std::initializer_list<BusMemory::LabelValue>{l[0]}, ex); break;
            case 2: p = std::make_unique<BusMemory>(top, std::initializer_list<BusMemory::LabelValue>{l[0], l[1]}, ex); break; default: p = std::make_unique<BusMemory>(top, std::initializer_list<BusMemory::LabelValue>{l[0], l[1], l[2]}, ex); } });
    }
    else listed(excl, [&](std::initializer_list<std::string> ex) { p = std::make_unique<BusPipe>(top, ex); });
    if (unused) { MUST_THROW(p->connect(ib, ob), "connecting with an unused initial value"); return; }
    MUST_PASS(p->connect(ib, ob), "connecting");
    std::vector<Block*> made; top.visit([&](Block& b, uint32_t) { if (&b != &top && &b != p.get()) made.push_back(&b); return true; }, 0);
    EQ(made.size(), want.size(), "number of created blocks");
    for (size_t i = 0; i < made.size(); i++)
    {
        auto& v = want[i]; Block* b = made[i];
        REQ(b->parent() == &top, "the block is in the parent");
        REQ(mem ? is<MemoryT>(b, v.kind) : is<PipeT>(b, v.kind), "type of the block of ", v.path);
        EQ(b->name().str(), ValidName(v.path).str(), "name of the block of ", v.path);
        REQ(b->connected() && b->ibus().size() == 1 && b->obus().size() == 1, "one input and one output");
        REQ(&b->ibus().at(0).impl() == &v.in.impl(), "input of the block of ", v.path); REQ(&b->obus().at(0).impl() == &v.out.impl(), "output of the block of ", v.path);
        if (mem && !init.count(i)) init[i] = V(v.len, 0.0);
    }
    // run it
    for (int step = range(1, 3); step > 0; step--)
    {
        for (auto& v : t.vals) dynamic_cast<ValueSignalImpl&>(v.out.impl()).clear();
        std::vector<V> now; for (auto& v : want) now.push_back(set_in(v));
        top._mark_unprocessed(); top.process(step);
        for (size_t i = 0; i < want.size(); i++) out_is(want[i], mem ? init[i] : now[i], "the output at ");
        top.post_step(step); for (size_t i = 0; i < want.size(); i++) init[i] = now[i];
    }
}
void H::run()
{
    int n = g_thorough ? 40000 : 2500;
    for (int c = 0; c < n; c++) one();
}
