#include "ports.hpp"
#include "src/solver/history.hpp"
using namespace P;
// a history against a plain list of recorded rows
struct Sig { int kind; int len; Signal s; };
static Sig make()
{
    int kind = below(4), len = kind == 3 ? range(1, 4) : 1;
    switch (kind) { case 0: return {0, 1, ScalarSignal()}; case 1: return {1, 1, IntSignal()}; case 2: return {2, 1, BoolSignal()}; default: return {3, len, ArraySignal(len)}; }
}
static void give(Sig& s)
{
    switch (s.kind)
    {
        case 0: { ScalarSignal x(s.s); x->clear(); if (coin(80)) x = num(); break; }
        case 1: { IntSignal x(s.s); x->clear(); if (coin(80)) x = range(-9, 9); break; }
        case 2: { BoolSignal x(s.s); x->clear(); if (coin(80)) x = coin(); break; }
        default: { ArraySignal x(s.s); x->clear(); if (coin(80)) { Array a(s.len); for (int i = 0; i < s.len; i++) a[i] = num(); x = a; } }
    }
}
static std::vector<double> now(Sig& s)
{
    switch (s.kind)
    {
        case 0: { ScalarSignal x(s.s); return {x->assigned() ? double(x->get_value()) : 0.0}; }
        case 1: { IntSignal x(s.s); return {x->assigned() ? double(x->get_value()) : 0.0}; }
        case 2: { BoolSignal x(s.s); return {x->assigned() && x->get_value() ? 1.0 : 0.0}; }
        default: { ArraySignal x(s.s); std::vector<double> r(s.len, 0.0); if (x->assigned()) for (int i = 0; i < s.len; i++) r[i] = x->get_value()[i]; return r; }
    }
}
struct Row { double t; std::vector<std::vector<double>> v; };
static void compare(const History& h, std::vector<Sig>& all, const std::vector<int>& tracked, const std::map<unsigned, Row>& rows, bool shrunk)
{
    unsigned n = rows.empty() ? 0 : rows.rbegin()->first + 1;
    EQ(h.nrows(), n, "number of rows");
    if (shrunk) { EQ((unsigned)h.time().rows(), n, "exactly the rows are kept in time()"); }
    REQ((unsigned)h.time().rows() >= n, "time() has every row");
    if (rows.empty()) { EQ(h.size(), size_t(0), "no records"); return; }
    EQ(h.size(), tracked.size(), "one record for every tracked signal");
    for (auto& [k, r] : rows) EQD(h.time()[k], r.t, "time of row ", k);
    for (size_t i = 0; i < all.size(); i++)
    {
        auto it = std::find(tracked.begin(), tracked.end(), int(i));
        if (it == tracked.end()) { MUST_THROW(h[all[i].s], "record of a signal that is not tracked"); continue; }
        size_t c = it - tracked.begin();
        const Eigen::MatrixXd& m = h[all[i].s];
        EQ((int)m.cols(), all[i].len, "columns of signal ", i);
        REQ((unsigned)m.rows() >= n, "rows of signal ", i);
        if (shrunk) { EQ((unsigned)m.rows(), n, "exactly the rows are kept for signal ", i); }
        for (auto& [k, r] : rows) for (int j = 0; j < all[i].len; j++) EQD(m(k, j), r.v[c][j], "signal ", i, " row ", k, " column ", j);
    }
}
static void one()
{
    unsigned grow = coin(20) ? 0 : coin() ? range(1, 4) : range(5, 40);
    bool dflt = coin(3);
    History h = dflt ? History() : History(grow);
    std::vector<Sig> all; int n = range(1, 5); for (int i = 0; i < n; i++) all.push_back(make());
    Bus b = bus({{"x", ScalarSignal()}});
    std::vector<int> tracked; std::map<unsigned, Row> rows; bool shrunk = false;
    ctx("history grow ", dflt ? 1000u : grow, " signals ", n, ":");
    auto track = [&] {
        int i = below(n); bool in = std::find(tracked.begin(), tracked.end(), i) != tracked.end();
        also(" track", i); EQ(h.track(all[i].s), !in, "track tells if the signal is new"); if (!in) tracked.push_back(i);
    };
    auto untrack = [&] {
        int i = below(n); also(" untrack", i); h.untrack(all[i].s);
        auto it = std::find(tracked.begin(), tracked.end(), i); if (it != tracked.end()) tracked.erase(it);
    };
    int ops = range(2, 14); unsigned next = coin(80) ? 0 : below(30);
    for (int o = 0; o < ops; o++)
    {
        int w = below(100);
        if (rows.empty() && w < 45) track();
        else if (rows.empty() && w < 55) untrack();
        else if (rows.empty() && w < 60) { also(" trackbus"); REQ(!h.track(b), "a bus is not tracked"); h.untrack(b); }
        else if (!rows.empty() && w < 5) { also(" late"); MUST_THROW(h.track(all[0].s), "track after the first update"); MUST_THROW(h.untrack(all[0].s), "untrack after the first update"); }
        else if (w < 90)
        {
            unsigned k = coin(85) ? next : below(40); double t = num();
            for (auto& s : all) give(s);
            also(" update", k); h.update(k, t);
            if (!tracked.empty()) { Row r{t, {}}; for (int i : tracked) r.v.push_back(now(all[i])); rows[k] = r; shrunk = false; next = k + 1; }
        }
        else { also(" shrink"); h.shrink_to_fit(); shrunk = true; }
        compare(h, all, tracked, rows, shrunk);
        if (shrunk) shrunk = false;
    }
    if (!rows.empty()) { MUST_THROW(h[b], "record of a bus"); }
    if (rows.empty() && n) { for (auto& s : all) MUST_THROW(h[s.s], "no record before the first update"); }
}
// shrinking and updating at the boundaries of the storage, for small sizes exhaustively
static void edges()
{
    for (int grow = 0; grow < 4; grow++) for (int first = 0; first < 2; first++) for (int a = 0; a < 6; a++) for (int b = 0; b < 8; b++) for (int c = 0; c < 8; c++)
    {
        ctx("grow ", grow, first ? " shrink" : "", " update ", a, " ", b, " ", c, " shrink");
        History h(grow); ScalarSignal s; h.track(s); std::vector<Sig> all{{0, 1, s}}; std::map<unsigned, Row> rows;
        if (first) h.shrink_to_fit();
        for (int k : {a, b, c}) { s->clear(); s = k + 0.5; h.update(k, k); rows[k] = Row{double(k), {{k + 0.5}}}; }
        h.shrink_to_fit(); compare(h, all, {0}, rows, true);
    }
}
void H::run() { edges(); for (int i = 0; i < (g_thorough ? 60000 : 4000); i++) one(); }
