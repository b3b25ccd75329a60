#include "common.hpp"
#include "src/signal/array_signal.hpp"
#include "src/signal/bool_signal.hpp"
#include "src/signal/bus.hpp"
#include "src/signal/int_signal.hpp"
#include "src/signal/scalar_signal.hpp"
using namespace pooya;
using namespace H;

// model of one value signal: unassigned, or assigned with a value
template<typename Sig, typename T, typename Mk, typename Gen, typename Eq>
void scenario(const char* kind, Mk mk, Gen gen, Eq eq)
{
    const int N = g_thorough ? 3000 : 150;
    for (int n = 0; n < N; n++)
    {
        std::string trace = kind;
        std::vector<Sig> handles; // handles[i] denotes signal owner[i]
        std::vector<int> owner;
        int nsig = range(1, 3);
        std::vector<std::optional<T>> model(nsig);
        for (int i = 0; i < nsig; i++) { handles.push_back(mk()); owner.push_back(i); }
        for (int i = 0; i < 2; i++) { int j = below(nsig); handles.push_back(Sig(handles[j])); owner.push_back(j); }
        ctx(trace);
        auto check_all = [&] {
            for (size_t h = 0; h < handles.size(); h++)
            {
                auto& m = model[owner[h]];
                EQ(handles[h]->assigned(), m.has_value(), "assigned() of signal ", owner[h]);
                if (m)
                {
                    MUST_PASS(eq(handles[h]->get_value(), *m), "read of an assigned signal");
                    REQ(eq(handles[h]->get_value(), *m), "get_value() of signal ", owner[h], " differs from the value assigned");
                    REQ(eq(T(handles[h]), *m), "handle conversion of signal ", owner[h], " differs from the value assigned");
                }
                else
                {
                    MUST_THROW((void)handles[h]->get_value(), "read of unassigned signal ", owner[h], " accepted");
                    MUST_THROW((void)T(handles[h]), "conversion of unassigned signal ", owner[h], " accepted");
                }
                EQ(handles[h]->assigned(), m.has_value(), "assigned() of signal after reading ", owner[h]);
            }
        };
        check_all();
        int steps = range(3, 14);
        for (int s = 0; s < steps; s++)
        {
            int h = below(int(handles.size())), o = owner[h];
            int op = below(4);
            if (op == 0 || op == 1)
            {
                T v = gen();
                also(op ? "; assign s" : "; set s", o);
                if (model[o]) { MUST_THROW((op ? (void)(handles[h] = v) : handles[h]->set_value(v)), "second assignment of signal ", o, " accepted"); }
                else
                {
                    MUST_PASS((op ? (void)(handles[h] = v) : handles[h]->set_value(v)), "assignment of unassigned signal ", o, " rejected");
                    model[o] = v;
                }
            }
            else if (op == 2)
            {
                also("; clear s", o);
                MUST_PASS(handles[h]->clear(), "clear");
                model[o].reset();
            }
            else
            {
                int g = below(int(handles.size())), p = owner[g];
                also("; s", o, " = handle s", p);
                if (model[o] || !model[p]) { MUST_THROW(handles[h] = handles[g], "handle assignment s", o, " = s", p, " accepted"); }
                else { MUST_PASS(handles[h] = handles[g], "handle assignment"); model[o] = *model[p]; }
            }
            check_all();
        }
    }
}

void H::run()
{
    const std::vector<double> special{0.0, -0.0, 1.0, -1.5, 1e300, -1e-300, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 5e-324, 0.1};
    auto dgen = [&] { return coin(30) ? pick(special) : num(); };
    auto deq = [](double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || same(a, b); };
    scenario<ScalarSignal, double>("scalar", [] { return ScalarSignal("x"); }, dgen, deq);
    scenario<IntSignal, int>("int", [] { return IntSignal("i"); }, [] { return coin(20) ? (coin() ? INT32_MAX : INT32_MIN) : range(-3, 3); }, [](int a, int b) { return a == b; });
    scenario<BoolSignal, bool>("bool", [] { return BoolSignal("b"); }, [] { return coin(); }, [](bool a, bool b) { return a == b; });
    for (int len : {0, 1, 2, 3, 7})
        scenario<ArraySignal, Array>("array", [len] { return ArraySignal(len, "a"); },
            [&, len] { Array a(len); for (int i = 0; i < len; i++) a[i] = dgen(); return a; },
            [&](const Array& a, const Array& b) { if (a.rows() != b.rows()) return false; for (int i = 0; i < a.rows(); i++) if (!deq(a[i], b[i])) return false; return true; });
    // arrays of another length are refused and leave the signal alone; element reads
    for (int len = 0; len <= 6; len++)
        for (int other = 0; other <= 6; other++)
            for (int pre = 0; pre < 2; pre++)
            {
                ctx("array signal of size ", len, pre ? " assigned" : " unassigned", ", assigning an array of length ", other);
                ArraySignal s(len, "a");
                Array v(len), w(other);
                for (int i = 0; i < len; i++) v[i] = 10 + i;
                for (int i = 0; i < other; i++) w[i] = 100 + i;
                if (pre) s = v;
                if (pre || other != len)
                {
                    MUST_THROW(s->set_value(w), "accepted");
                    MUST_THROW(s = w, "accepted");
                    EQ(s->assigned(), bool(pre), "assigned() after a rejected assignment");
                    if (!pre) { MUST_PASS(s = v, "assignment after a rejected one"); }
                }
                else { MUST_PASS(s = w, "assignment"); v = w; }
                for (int i = 0; i < len; i++)
                {
                    EQD(s[i], v[i], "element ", i);
                    EQD(s->get_value(i), v[i], "element ", i);
                    EQD(s->get_value()[i], v[i], "element ", i);
                }
                EQ(int(s->get_value().rows()), len, "length");
                s->clear();
                if (len) { MUST_THROW((void)s[0], "element of a cleared signal"); MUST_THROW((void)s->get_value(0), "element of a cleared signal"); }
                // the assigned array is copied, not referenced
                Array z(len);
                z.setConstant(5.0);
                s = z;
                z.setConstant(6.0);
                for (int i = 0; i < len; i++) EQD(s[i], 5.0, "element ", i, " changed with the source array");
            }
}
