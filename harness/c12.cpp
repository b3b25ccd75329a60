#include "common.hpp"
#include "src/solver/euler.hpp"
#include "src/solver/rk4.hpp"
#include "src/solver/rkf45.hpp"
using namespace pooya;
using namespace H;
struct Tab { std::vector<double> c; std::vector<std::vector<double>> a; std::vector<double> b, b5; };
static const Tab EU{{0}, {{}}, {1}, {}};
static const Tab R4{{0, .5, .5, 1}, {{}, {.5}, {0, .5}, {0, 0, 1}}, {1. / 6, 1. / 3, 1. / 3, 1. / 6}, {}};
static const Tab RF{{0, 1. / 4, 3. / 8, 12. / 13, 1, .5},
    {{}, {1. / 4}, {3. / 32, 9. / 32}, {1932. / 2197, -7200. / 2197, 7296. / 2197}, {439. / 216, -8, 3680. / 513, -845. / 4104}, {-8. / 27, 2, -3544. / 2565, 1859. / 4104, -11. / 40}},
    {25. / 216, 0, 1408. / 2565, 2197. / 4104, -1. / 5, 0}, {16. / 135, 0, 6656. / 12825, 28561. / 56430, -9. / 50, 2. / 55}};
void H::run()
{
    int n = g_thorough ? 60000 : 6000;
    for (int c = 0; c < n; c++)
    {
        int which = below(3), dim = range(1, 4);
        const Tab& T = which == 0 ? EU : which == 1 ? R4 : RF;
        double t0 = num(), h = coin(20) ? pos() * 10 : pos() / 4, t1 = t0 + h;
        bool zero = coin(10);
        double scale = zero ? 0 : std::pow(10., range(-4, 2));
        ctx(which == 0 ? "Euler" : which == 1 ? "RK4" : "RKF45", " dim ", dim, " t0 ", t0, " h ", h, " scale ", scale);
        std::vector<double> A(dim * dim), B(dim), w(dim);
        for (auto& x : A) x = num() / 8;
        for (auto& x : B) x = num();
        for (auto& x : w) x = num() / 4;
        int form = below(3);
        auto f = [&](double t, const std::vector<double>& v) {
            std::vector<double> r(dim);
            for (int i = 0; i < dim; i++)
            {
                double s = B[i] * std::cos(w[i] * t);
                for (int j = 0; j < dim; j++) s += A[i * dim + j] * (form == 0 ? v[j] : form == 1 ? std::sin(v[j]) : v[j] / (1 + v[j] * v[j]));
                r[i] = s * scale;
            }
            return r;
        };
        std::vector<double> v0(dim);
        for (auto& x : v0) x = num();
        // oracle
        size_t s = T.c.size();
        std::vector<std::vector<double>> K, V; std::vector<double> tt;
        double big = 1;
        for (size_t i = 0; i < s; i++)
        {
            std::vector<double> v = v0;
            for (size_t j = 0; j < T.a[i].size(); j++) for (int k = 0; k < dim; k++) v[k] += h * T.a[i][j] * K[j][k];
            tt.push_back(t0 + T.c[i] * h); V.push_back(v); K.push_back(f(tt[i], v));
            for (int k = 0; k < dim; k++) big = std::max({big, std::fabs(v[k]), std::fabs(h * K[i][k])});
        }
        std::vector<double> r = v0, r5 = v0;
        for (size_t i = 0; i < s; i++) for (int k = 0; k < dim; k++) { r[k] += h * T.b[i] * K[i][k]; if (!T.b5.empty()) r5[k] += h * T.b5[i] * K[i][k]; }
        double tol = 1e-10 * big;
        // the real thing; every call overwrites the vector that the previous one returned
        Array buf(dim), x0(dim), x1(coin() ? dim : 0);
        for (int k = 0; k < dim; k++) x0[k] = v0[k];
        const Array copy = x0;
        size_t calls = 0;
        auto cb = [&](double t, const Array& v) -> const Array& {
            REQ(calls < s, "not more evaluations than stages");
            NEART(t, tt[calls], 1e-12 * (1 + std::fabs(t)), "time of stage ", (long)calls);
            EQ(long(v.size()), long(dim), "size of the stage state");
            for (int k = 0; k < dim; k++) NEART(v[k], V[calls][k], tol, "state of stage ", (long)calls, " entry ", k);
            auto d = K[calls];
            for (int k = 0; k < dim; k++) buf[k] = d[k];
            calls++;
            return buf;
        };
        double nh = -7;
        Euler eu; Rk4 r4; Rkf45 rf;
        StepperBase& st = which == 0 ? static_cast<StepperBase&>(eu) : which == 1 ? static_cast<StepperBase&>(r4) : rf;
        MUST_PASS(st.step(cb, t0, x0, t1, x1, nh), "a step");
        EQ(calls, s, "number of evaluations");
        EQ(long(x1.size()), long(dim), "size of the result");
        for (int k = 0; k < dim; k++) { NEART(x1[k], r[k], tol, "result, entry ", k); EQD(x0[k], copy[k], "start state, entry ", k); }
        if (which < 2) EQD(nh, h, "proposed step");
        else
        {
            double mx = 0;
            for (int k = 0; k < dim; k++) mx = std::max(mx, std::fabs(r[k] - r5[k]));
            double s4 = 0.001 * h / (2 * mx), slack = tol / (mx + 1e-300) + 1e-9;
            if (zero) EQD(nh, h, "proposed step without error");
            else if (slack < 0.1)
            {
                if (s4 < 0.31640625 * (1 - slack)) EQD(nh, h / 2, "proposed step for a large error");
                else if (s4 > 5.0625 * (1 + slack)) EQD(nh, 2 * h, "proposed step for a small error");
                else if (s4 > 0.31640625 * (1 + slack) && s4 < 5.0625 * (1 - slack)) EQD(nh, h, "proposed step otherwise");
            }
        }
    }
}
