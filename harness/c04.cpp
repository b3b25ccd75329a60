#include "common.hpp"
#include "src/block/leaf.hpp"
#include "src/block/submodel.hpp"
#include "src/block/extra/gain.hpp"
#include "src/signal/array_signal.hpp"
#include "src/signal/bool_signal.hpp"
#include "src/signal/bus.hpp"
#include "src/signal/int_signal.hpp"
#include "src/signal/scalar_signal.hpp"
using namespace pooya;
using namespace H;

static std::string valid(std::string s)
{
    for (auto& c : s)
    {
        unsigned char u = (unsigned char)(c);
        bool ok = (u >= 48 && u <= 57) || (u >= 65 && u <= 90) || (u >= 97 && u <= 122) || u == 95;
        if (!ok) c = char(95);
    }
    return s;
}
static std::string rnd_name(bool nonul = false)
{
    std::string s;
    int n = coin(20) ? 0 : range(1, 12);
    const std::string mix = "abyzABYZ0189_ ./|-@[`{:/\t\n\x7f\x80\xff";
    for (int i = 0; i < n; i++)
    {
        char c = coin() ? mix[below(int(mix.size()))] : char(below(256));
        if (nonul && c == 0) c = ' ';
        s += c;
    }
    return s;
}
static std::string hex(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) { char b[8]; if (c >= 32 && c < 127) { r += char(c); } else { std::snprintf(b, sizeof b, "\\x%02x", c); r += b; } }
    return r + "\"";
}
struct L : Leaf
{
    L(Submodel* p, std::string_view n) : Leaf(p, n, NoIOLimit, NoIOLimit) {}
    void activation_function(double) override {}
};
struct S : Submodel
{
    S(Submodel* p, std::string_view n) : Submodel(p, n, NoIOLimit, NoIOLimit) {}
};

void H::run()
{
    for (int c = 0; c < 256; c++)
    {
        ctx("single character ", c);
        std::string s(1, char(c));
        EQ(ValidName(s).str(), valid(s), "valid form");
        s = "a" + s + "Z";
        EQ(ValidName::emend(std::string_view(s)), valid(s), "valid form");
    }
    const int N = g_thorough ? 40000 : 4000;
    for (int n = 0; n < N; n++)
    {
        std::string a = rnd_name(), b = rnd_name(), c = rnd_name(true);
        ctx("names ", hex(a), ", ", hex(b), ", ", hex(c));
        ValidName va(a), vb(b);
        EQ(va.str(), valid(a), "constructor");
        EQ(ValidName(va).str(), valid(a), "copy");
        EQ(ValidName::emend(va), valid(a), "emend of a valid name");
        EQ(ValidName(va.str()).str(), va.str(), "valid form of a valid form");
        ValidName vc(b);
        vc = std::string_view(a);
        EQ(vc.str(), valid(a), "assignment");
        vc = vb;
        EQ(vc.str(), valid(b), "assignment");
        EQ((va | vb).str(), valid(a) + "." + valid(b), "joining with |");
        EQ((va / vb).str(), valid(a) + "/" + valid(b), "joining with /");
        EQ((va | b).str(), valid(a) + "." + valid(b), "joining with | a string");
        EQ((va / b).str(), valid(a) + "/" + valid(b), "joining with / a string");
        EQ((va | c.c_str()).str(), valid(a) + "." + valid(c), "joining with | a literal");
        EQ((va / c.c_str()).str(), valid(a) + "/" + valid(c), "joining with / a literal");
        EQ((va / vb | c).str(), valid(a) + "/" + valid(b) + "." + valid(c), "joining twice");
        EQ(va.str() + vb.str(), valid(a) + valid(b), "joined names changed");
        EQ(ValidName().str(), std::string(), "default name");
        std::vector<std::shared_ptr<SignalImpl>> sigs{ScalarSignalImpl::create_new(a), IntSignalImpl::create_new(a), BoolSignalImpl::create_new(a), ArraySignalImpl::create_new(2, a),
            Bus({ScalarSignal("q")}, a).impl().shared_from_this(), ScalarSignal(a)->shared_from_this(), ArraySignal(3, a)->shared_from_this(), IntSignal(a)->shared_from_this(), BoolSignal(a)->shared_from_this()};
        for (size_t i = 0; i < sigs.size(); i++)
        {
            EQ(sigs[i]->name().str(), valid(a), "name of signal kind ", i);
            sigs[i]->rename(b);
            EQ(sigs[i]->name().str(), valid(b), "renamed signal kind ", i);
        }
    }
    for (int n = 0; n < N / 8; n++)
    {
        int depth = range(0, 5);
        std::vector<std::unique_ptr<S>> tree;
        std::vector<std::string> nm;
        ctx("block tree");
        for (int i = 0; i < depth; i++)
        {
            std::string s = rnd_name();
            also(" / ", hex(s));
            tree.push_back(std::make_unique<S>(i ? tree[i - 1].get() : nullptr, s));
            nm.push_back(valid(s));
        }
        std::string ln = rnd_name();
        also(" / ", hex(ln));
        auto leaf = std::make_unique<L>(depth ? tree.back().get() : nullptr, ln);
        auto full = [&](int upto) { std::string r; for (int i = 0; i < upto; i++) r += "/" + nm[i]; return r; };
        for (int round = 0; round < 3; round++)
        {
            for (int i = 0; i < depth; i++)
            {
                EQ(tree[i]->name().str(), nm[i], "name of submodel ", i);
                EQ(tree[i]->full_name().str(), full(i + 1), "full name of submodel ", i);
            }
            EQ(leaf->full_name().str(), full(depth) + "/" + valid(ln), "full name of the leaf");
            if (depth)
            {
                int i = below(depth);
                std::string s = rnd_name();
                also(" ; rename ", i, " to ", hex(s));
                tree[i]->rename(s);
                nm[i] = valid(s);
            }
        }
        // a block that gets its parent later
        if (depth)
        {
            auto l2 = std::make_unique<L>(nullptr, ln);
            EQ(l2->full_name().str(), "/" + valid(ln), "full name without parent");
            l2->set_parent(*tree.back());
            EQ(l2->full_name().str(), full(depth) + "/" + valid(ln), "full name after set_parent");
        }
    }
}
