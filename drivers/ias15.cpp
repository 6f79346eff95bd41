// IAS15 over the real Gauss-Radau integrator, a stub system with free derivative samples, and stubs for the convergence
// measure and the step controller that play a given history.  Entry points of the analysis, never executed.
// in[0..]: y0, in[20], in[21]: macro steps, in[30..]: convergence errors in order, in[60..]: step ratios in order, in[100..]: samples
#include "sys.hpp"
extern "C" { void ev_next(double order, double err); void ev_state(double); void ev_start(); void ev_pc(double, double); double uf_lim(double); }
using namespace hub;
static double const* g_pc; static double const* g_ratio; static double const* g_next;
struct Checker {
    using Scalar = double;
    void set_atol(double) {} void set_rtol(double) {} void set_tol(double) {}
    template <class A, class B> double error(A const& a, B const& b) { return *g_pc++; }
};
struct Control {
    void set_safe_guards(double, double) {} void set_limiter(double, double) {} void set_gains(double, double, double) {}
    double limiter_min() const { return 0.125; } double limiter_max() const { return 4.0; }
    double limiter(double r) const { return uf_lim(r); }
    double limiter(size_t, double r) const { return uf_lim(r); }
    template <class... A> double next(size_t order, A... e) { ev_next(order, (double(e), ...)); return *g_ratio++; }
    template <class... A> double next_with_limiter(size_t order, A... e) { return limiter(next(order, e...)); }
};
template <bool DEP>
struct Base {
    using Scalar = double;
    static constexpr bool ext_vel_dep{DEP};
    std::vector<double> y;
    template <class A> void write_to_scalar_array(A& a) { a.resize(y.size()); for (size_t i = 0; i < y.size(); ++i) a[i] = y[i]; }
    template <class A> void read_from_scalar_array(A const& a) { y.resize(a.size()); for (size_t i = 0; i < y.size(); ++i) y[i] = a[i]; }
    template <class A> void evaluate_general_derivative(A& d) {
        d.resize(y.size());
        ev_start();
        for (size_t i = 0; i < y.size(); ++i) { ev_state(y[i]); d[i] = *g_next++; }
    }
    size_t variable_number() const { return y.size(); }
    size_t number() const { return 1; }
    size_t time_offset() const { return 0; } size_t pos_offset() const { return 1; } size_t vel_offset() const { return 4; } size_t auxi_vel_offset() const { return 7; }
    double step_scale() const { return 2.0; }
    double time() const { return y[0]; }
    Vec3<double> at(size_t k) const { return Vec3<double>(y[k], y[k + 1], y[k + 2]); }
};
struct Plain : Base<false> { Vec3<double> pos(size_t i) const { return at(1 + 3 * i); } Vec3<double> vel(size_t i) const { return at(4 + 3 * i); } };
struct Rich : Base<true> {
    static constexpr int regu_type{1};
    Vec3<double> chain_pos(size_t i) const { return at(1 + 3 * i); } Vec3<double> chain_vel(size_t i) const { return at(4 + 3 * i); }
    int chain_pos() const { return 0; } int chain_vel() const { return 0; }
    Vec3<double> pos(size_t i) const { return at(1 + 3 * i) * 1e9; } Vec3<double> vel(size_t i) const { return at(4 + 3 * i); }
};
template <class S>
static void go(double const* in, double* out, size_t n, size_t steps) {
    g_pc = in + 30; g_ratio = in + 60; g_next = in + 100;
    ode::IAS15<integrator::GaussRadau<drv::TS>, Checker, Control> it;
    S s; s.y.resize(n);
    for (size_t i = 0; i < n; ++i) s.y[i] = in[i];
    for (size_t k = 0; k < steps; ++k) {
        *out++ = it.iterate(s, in[20 + k]);
        for (size_t i = 0; i < n; ++i) *out++ = s.y[i];
    }
}
extern "C" void plain(double const* in, double* out) { go<Plain>(in, out, 7, 2); }
extern "C" void rich(double const* in, double* out) { go<Rich>(in, out, 12, 2); }
struct Never : Checker { double e{1000}; template <class A, class B> double error(A const& a, B const& b) { return e -= 1; } };
struct One : Base<false> {
        template <class A> void evaluate_general_derivative(A& d) { d.resize(y.size()); for (size_t i = 0; i < y.size(); ++i) d[i] = 1.0; }
        Vec3<double> pos(size_t) const { return Vec3<double>(0, 0, 0); } Vec3<double> vel(size_t) const { return Vec3<double>(0, 0, 0); }
};
extern "C" void exhaust(double const* in, double* out) {
    One s;
    g_next = in + 100;
    g_ratio = in + 60;
    ode::IAS15<integrator::GaussRadau<drv::TS>, Never, Control> it;
    s.y.resize(1); s.y[0] = 1;
    out[0] = it.iterate(s, in[20]);
}
