#include "ports.hpp"
#include "src/solver/history.hpp"
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace P;
// the exported file is read back and compared with the history
struct Sig { int kind; int len; std::string name; Signal s; };
static Sig make(const std::string& n)
{
    int kind = below(4), len = kind == 3 ? range(1, 4) : 1;
    switch (kind) { case 0: return {0, 1, n, ScalarSignal(n)}; case 1: return {1, 1, n, IntSignal(n)}; case 2: return {2, 1, n, BoolSignal(n)}; default: return {3, len, n, ArraySignal(len, n)}; }
}
static void give(Sig& s)
{
    switch (s.kind)
    {
        case 0: { ScalarSignal x(s.s); x->clear(); if (coin(80)) x = num(); break; }
        case 1: { IntSignal x(s.s); x->clear(); if (coin(80)) x = range(-9, 9); break; }
        case 2: { BoolSignal x(s.s); x->clear(); if (coin(80)) x = coin(); break; }
        default: { ArraySignal x(s.s); x->clear(); if (coin(80)) { Array a(s.len); for (int i = 0; i < s.len; i++) a[i] = num(); x = a; } }
    }
}
static std::vector<std::string> split(const std::string& l)
{
    std::vector<std::string> r(1);
    for (char c : l) if (c == ',') r.emplace_back(); else r.back() += c;
    return r;
}
static std::string file;
static void one()
{
    unsigned grow = coin(20) ? 0 : range(1, 20); History h(grow); std::vector<Sig> all; int n = range(0, 5);
    static const char* names[] = {"x", "y", "tau", "x_1", "a0", "T", "long_name", "time2"};
    std::vector<std::string> ns(std::begin(names), std::end(names)); shuffle(ns);
    ctx("history grow ", grow, ":");
    for (int i = 0; i < n; i++) { all.push_back(make(ns[i])); h.track(all.back().s); also(" ", ns[i], "/", all.back().kind, "/", all.back().len); }
    int rows = range(0, 12); unsigned last = 0; std::map<unsigned, double> times;
    for (int r = 0; r < rows; r++)
    {
        unsigned k = coin(90) ? r : below(r + 1); for (auto& s : all) give(s);
        double t = num(); h.update(k, t); times[k] = t; last = std::max(last, k);
    }
    // (every row up to the last has to be given for its contents to be defined)
    for (unsigned k = 0; rows && k <= last; k++) if (!times.count(k)) { for (auto& s : all) give(s); h.update(k, 0.5); times[k] = 0.5; }
    if (coin(30)) { h.shrink_to_fit(); also(" shrunk"); }
    also(" rows ", times.size());
    unlink(file.c_str()); h.export_csv(file);
    std::ifstream in(file);
    if (!n || !rows) { REQ(!in.good() || in.peek() == EOF, "an empty history writes nothing"); return; }
    REQ(in.good(), "a file is written");
    std::stringstream ss; ss << in.rdbuf(); std::string txt = ss.str(); std::vector<std::string> lines; std::string l;
    REQ(!txt.empty() && txt.back() == '\n', "the last line ends");
    while (std::getline(ss, l)) lines.push_back(l);
    EQ(lines.size(), times.size() + 1, "a header and a line for every row");
    auto head = split(lines[0]); EQ(head[0], std::string("time"), "the first title");
    size_t w = 1; for (auto& s : all) w += s.len;
    EQ(head.size(), w, "a title for every column");
    for (auto& s : all)
    {
        // the columns of a signal are together and in order
        std::string first = s.kind == 3 ? s.name + "[0]" : s.name; auto it = std::find(head.begin(), head.end(), first);
        REQ(it != head.end(), "column ", first, " in ", lines[0]); size_t c = it - head.begin();
        for (int j = 0; j < s.len; j++)
        {
            REQ(c + j < head.size() && head[c + j] == (s.kind == 3 ? s.name + "[" + std::to_string(j) + "]" : s.name), "title ", j, " of ", s.name, " in ", lines[0]);
            for (unsigned k = 0; k < times.size(); k++)
            {
                auto f = split(lines[k + 1]); EQ(f.size(), w, "fields of row ", k);
                EQD(std::stod(f[0]), times[k], "time of row ", k);
                EQD(std::stod(f[c + j]), h[s.s](k, j), "value of ", s.name, " ", j, " in row ", k);
            }
        }
    }
}
void H::run()
{
    const char* d = getenv("VERIF_SCRATCH"); file = std::string(d ? d : "/tmp") + "/pooya_c20.csv";
    for (int i = 0; i < (g_thorough ? 10000 : 800); i++) one();
    unlink(file.c_str());
}
