// sequential-refinement and fixed-step iterators over an uninterpreted integrator, a scripted error norm and a recording controller.
// in[0..1] y0, in[2], in[3] macro steps, in[10..] raw errors in call order.  Entry points of the analysis, never executed.
#include "sys.hpp"
extern "C" { void ev_int(double h, double a, double b); void ev_err(double, double, double, double, double, double); void ev_next(double order, double err); void ev_atol(double); void ev_rtol(double);
             double uf_stepa(double a, double b, double h); double uf_stepb(double a, double b, double h); double uf_lim(double order, double e); }
using namespace hub;
static double const* g_err;
template <size_t P> struct Integ : drv::TS {
    SPACEHUB_USING_TYPE_SYSTEM_OF(drv::TS);
    using TypeSystem = drv::TS;
    static constexpr size_t order{P};
    template <class T> void integrate(T& p, double h) { double a = p.y[0], b = p.y[1]; ev_int(h, a, b); p.y[0] = uf_stepa(a, b, h); p.y[1] = uf_stepb(a, b, h); }
};
struct Err {
    using Scalar = double;
    void set_atol(double a) { ev_atol(a); } void set_rtol(double a) { ev_rtol(a); }
    template <class A, class B, class C> double error(A const& a, B const& b, C const& c) { ev_err(a[0], a[1], b[0], b[1], c[0], c[1]); return *g_err++; }
};
struct Ctl {
    void set_safe_guards(double, double) {} void set_limiter(double, double) {} void set_gains(double, double, double) {}
    template <class... A> double next_with_limiter(size_t order, A... e) { ev_next(order, (double(e), ...)); return uf_lim(order, (double(e), ...)); }
};
struct Sys {
    using Scalar = double;
    double y[2];
    template <class A> void write_to_scalar_array(A& a) { a.resize(2); a[0] = y[0]; a[1] = y[1]; }
    template <class A> void read_from_scalar_array(A const& a) { if (a.size() == 2) { y[0] = a[0]; y[1] = a[1]; } }
    size_t variable_number() const { return 2; }
};
template <class It> static void go(It& it, double const* in, double* out, int steps) {
    g_err = in + 10;
    Sys s; s.y[0] = in[0]; s.y[1] = in[1];
    for (int k = 0; k < steps; ++k) { *out++ = it.iterate(s, in[2 + k]); *out++ = s.y[0]; *out++ = s.y[1]; }
}
#define SEQ(P) extern "C" void seq##P(double const* in, double* out) { ode::SequentOdeIterator<Integ<P>, Err, Ctl> it; go(it, in, out, 1); } \
    extern "C" void seqtwo##P(double const* in, double* out) { ode::SequentOdeIterator<Integ<P>, Err, Ctl> it; go(it, in, out, 2); }
SEQ(2) SEQ(4) SEQ(6) SEQ(8) SEQ(10)
extern "C" void tol(double const* in, double* out) { ode::SequentOdeIterator<Integ<2>, Err, Ctl> it; it.set_atol(in[4]); it.set_rtol(in[5]); }
extern "C" void cst(double const* in, double* out) { ode::ConstOdeIterator<Integ<2>> it; go(it, in, out, 2); }
