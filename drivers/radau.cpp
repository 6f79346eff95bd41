// Gauss-Radau over a stub system whose derivative samples are free symbols (entry points of the analysis, never executed).
// in[0]=variables n, in[1..8] y0, in[16..]: (op, arg) pairs, in[64..]: symbolic arguments, in[100..]: derivative samples in order
#include "sys.hpp"
using namespace hub::integrator;
struct Stub {
    using Scalar = double;
    double const* next; double* q; std::vector<double> y;
    template <class A> void write_to_scalar_array(A& a) { a.resize(y.size()); for (size_t i = 0; i < y.size(); ++i) a[i] = y[i]; }
    template <class A> void read_from_scalar_array(A const& a) { y.resize(a.size()); for (size_t i = 0; i < y.size(); ++i) y[i] = a[i]; }
    template <class A> void evaluate_general_derivative(A& d) {
        d.resize(y.size());
        for (size_t i = 0; i < y.size(); ++i) { *q++ = y[i]; d[i] = *next++; }
    }
    double step_scale() const { return 1.0; }
    double time() const { return y[0]; }
};
extern "C" void radau(double const* in, double* out) {
    GaussRadau<drv::TS> g;
    Stub s; s.next = in + 100; s.q = out;
    s.y.resize((size_t)in[0]);
    for (size_t i = 0; i < s.y.size(); ++i) s.y[i] = in[1 + i];
    for (double const* pc = in + 16; *pc != 0; pc += 2) {
        int op = (int)pc[0]; double h = in[64 + (int)pc[1]];
        if (op == 1) g.correct(s, h);
        else if (op == 2) g.evaluate(s, h);
        else if (op == 3) g.predict(h);
        else if (op == 4) g.integrate(s, h);
        else if (op == 5) { for (size_t k = 0; k < 7; ++k) for (auto x : g.b()[k]) *s.q++ = x; }
        else if (op == 6) { for (auto x : s.y) *s.q++ = x; }
        else if (op == 7) {
            for (auto x : g.dy_0()) *s.q++ = x;
            for (auto x : g.dy_h()) *s.q++ = x;
            for (auto x : g.y_h()) *s.q++ = x;
        }
        else if (op == 10) { for (auto x : g.diff_b6()) *s.q++ = x; }
        else if (op == 8) { s.y.resize((size_t)pc[1]); for (size_t i = 0; i < s.y.size(); ++i) s.y[i] = in[9 + i]; }
        else if (op == 9) *s.q++ = GaussRadau<drv::TS>::order;
    }
}
extern "C" void tables(double const* in, double* out) {
    double* q = out;
    for (size_t i = 0; i < 8; ++i) *q++ = Radau::h(i);
    for (size_t n = 0; n < 7; ++n) for (size_t j = 0; j <= n; ++j) {
        *q++ = Radau::rr(n, j); *q++ = Radau::rs(n, j); *q++ = Radau::est_b(n, j); *q++ = Radau::g2b(n, j); *q++ = Radau::b2g(n, j);
    }
    for (size_t i = 0; i < 8; ++i) for (size_t k = 0; k < 8; ++k) *q++ = Radau::dy_tab(i, k);
}
extern "C" void g2b(double const* in, double* out) {
    std::array<std::vector<double>, 7> G, B;
    for (size_t k = 0; k < 7; ++k) { G[k].resize(2); B[k].resize(2); G[k][0] = in[2 * k]; G[k][1] = in[2 * k + 1]; }
    Radau::transform_g2b(G, B);
    for (size_t k = 0; k < 7; ++k) { out[2 * k] = B[k][0]; out[2 * k + 1] = B[k][1]; }
}
extern "C" void b2g(double const* in, double* out) {
    std::array<std::vector<double>, 7> G, B;
    for (size_t k = 0; k < 7; ++k) { G[k].resize(2); B[k].resize(2); B[k][0] = in[2 * k]; B[k][1] = in[2 * k + 1]; }
    Radau::transform_b2g(B, G);
    for (size_t k = 0; k < 7; ++k) { out[2 * k] = G[k][0]; out[2 * k + 1] = G[k][1]; }
}
