// Bulirsch-Stoer over a stub system with free increments, and stubs for the error norm and the step controller that play a
// given history.  Entry points of the analysis, never executed.
// in[0..]: y0, in[20]: first macro step, in[32 + 16*a + k]: error of column k in attempt a (-1: unknown column), in[32 + 16*a + 8 + k]: its ratio,
// in[1000..]: increments in order, in[3000..]: what the state is left with after a sub-run (garbage)
#include "sys.hpp"
extern "C" { void ev_drift(double); void ev_kick(double); void ev_start(double); void ev_error(double, double, double, double, double);
             void ev_next(double, double); void ev_lim(double, double, double); void ev_func(double, double, double); }
using namespace hub;
#ifndef SHV_NV
#define SHV_NV 1
#endif
#ifndef NATT
#define NATT 12
#endif
static double const* g_in; static double const* g_inc; static double const* g_junk;
static long g_att, g_col, g_len, g_first;   // attempt, column, operations of the running sub-run, operations of column 0
static void sub_run_ended() {               // called when a sub-run is known to be complete
    if (g_len == 0) return;
    if (g_first == 0) g_first = g_len;
    if (g_len == g_first) { ++g_att; g_col = 0; } else ++g_col;
    g_len = 0;
}
static long g_seq;                          // the plain-function form plays its script in order
static long row() { return g_att < NATT ? g_att : NATT - 1; }
struct Err {
    using Scalar = double;
    Err(double = 0, double = 0) {}
    void set_atol(double) {} void set_rtol(double) {}
    template <class S, class A, class B> double error(S const& s, A const& a, B const& b) {
        if (g_seq >= 0) { ev_error(g_seq, 0, s[0], a[0], b[0]); return g_in[32 + (g_seq < 360 ? g_seq : 360)]; }
        sub_run_ended();
        for (size_t i = 0; i < SHV_NV; ++i) ev_error(g_att, g_col, s[i], a[i], b[i]);
        return g_in[32 + 16 * row() + g_col];
    }
};
struct Ctl {
    void set_safe_guards(double, double) {} void set_limiter(double, double) {} void set_gains(double, double, double) {}
    template <class... A> double next(size_t order, A... e) { ev_next(order, (double(e), ...)); if (g_seq >= 0) return g_in[400 + g_seq++]; return g_in[32 + 16 * row() + 8 + g_col]; }
    double limiter(size_t order, double r) { double v = r < 0.25 ? 0.25 : r > 1.5 ? 1.5 : r; ev_lim(order, r, v); return v; }
    double limiter(double r) { return limiter(0, r); }
    template <class... A> double next_with_limiter(size_t order, A... e) { return limiter(order, next(order, e...)); }
};
struct Stub {
    using Scalar = double;
    std::vector<double> y, inc; bool on{false}, fresh{false};
    template <class A> void write_to_scalar_array(A& a) { a.resize(SHV_NV); for (size_t i = 0; i < SHV_NV; ++i) a[i] = y[i]; }
    template <class A> void read_from_scalar_array(A const& a) { sub_run_ended(); for (size_t i = 0; i < SHV_NV; ++i) y[i] = a[i]; fresh = true; }
    void clear_increment() { sub_run_ended(); for (auto& x : inc) x = 0; fresh = true; }
    void collect_increment(bool b) { on = b; }
    auto const& increment() const { return inc; }
    void op() {
        if (fresh || g_len == 0) {
            for (size_t i = 0; i < SHV_NV; ++i) { ev_start(y[i]); y[i] = *g_junk++; if (on) inc[i] += *g_inc++; }
            fresh = false;
        }
        ++g_len;
    }
    void drift(double h) { op(); ev_drift(h); }
    void kick(double h) { op(); ev_kick(h); }
    size_t variable_number() const { return SHV_NV; }
    double step_scale() const { return 1.0; }
    double time() const { return 0.0; }
};
template <class I>
static void go(double const* in, double* out, size_t steps) {
    g_in = in; g_inc = in + 1000; g_junk = in + 3000; g_seq = -1; g_att = -1; g_col = 0; g_len = 0; g_first = 0;
    ode::BulirschStoer<I, Err, Ctl> it;
    Stub s; s.y.resize(SHV_NV); s.inc.resize(SHV_NV);
    for (size_t i = 0; i < SHV_NV; ++i) { s.y[i] = in[i]; s.inc[i] = in[10 + i]; }
    double h = in[20];
    for (size_t k = 0; k < steps; ++k) {
        h = it.iterate(s, h);
        sub_run_ended();
        *out++ = h; *out++ = g_att; *out++ = s.on;
        for (size_t i = 0; i < SHV_NV; ++i) *out++ = s.y[i];
    }
}
extern "C" void dkd(double const* in, double* out) { go<integrator::LeapFrogDKD<drv::TS>>(in, out, (size_t)in[21]); }
extern "C" void kdk(double const* in, double* out) { go<integrator::LeapFrogKDK<drv::TS>>(in, out, (size_t)in[21]); }
template <size_t M, bool K> static double* tables(double* q) {
    ode::BulirschStoerConsts<double, M, K> c;
    for (size_t i = 0; i < M; ++i) { *q++ = c.h(i); *q++ = c.cost(i); }
    return q;
}
template <size_t M> static double* coefs(double* q) {
    ode::BulirschStoerConsts<double, M, false> c;
    for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < i; ++j) *q++ = c.table_coef(i, j);
    return q;
}
extern "C" void tab8(double const*, double* out) { tables<8, true>(tables<8, false>(out)); }
extern "C" void tab17(double const*, double* out) { tables<17, true>(tables<17, false>(out)); }
extern "C" void tab33(double const*, double* out) { tables<33, true>(tables<33, false>(out)); }
extern "C" void coef8(double const*, double* out) { coefs<8>(out); }
extern "C" void coef17(double const*, double* out) { coefs<17>(out); }
// the form for a plain ordinary differential equation: the derivative samples are free
extern "C" void func(double const* in, double* out) {
    g_in = in; g_inc = in + 1000; g_seq = 0;
    ode::BulirschStoer<integrator::LeapFrogDKD<drv::TS>, Err, Ctl> it;
    using A = typename ode::BulirschStoer<integrator::LeapFrogDKD<drv::TS>, Err, Ctl>::StateScalarArray;
    A y(1); y[0] = in[0];
    double t = in[1], h = in[20];
    long calls = 0;
    auto f = [&](A const& x, A& d, double tt) {
        ev_func(tt, x[0], calls);
        ++calls;
        d[0] = *g_inc++;
    };
    for (size_t k = 0; k < (size_t)in[21]; ++k) {
        h = it.iterate(f, y, t, h);
        *out++ = h; *out++ = t; *out++ = y[0];
    }
}
