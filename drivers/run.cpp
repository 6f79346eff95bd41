// The run loop over stub systems, iterators and callbacks that play a given history and log every event.  Entry points of the analysis, never executed.
// in[0] start time, in[1] step argument, in[2] end time, in[3] is the end time set, in[4] time tolerance, in[5], in[6] atol, rtol, in[7..10] numbers of operations, stop operations,
// start operations and stop conditions, in[11] second run, in[12] stop condition with a memory: stops at its n-th evaluation, in[16..] payload of callbacks,
// in[40 + k] step scale of state k, in[80 + k] time passed by step k, in[120 + k] step returned by it, in[160 + 40 c + k] decision of condition c at state k
#include "sys.hpp"
extern "C" { void ev_start(double, double, double, double, double); void ev_op(double, double, double, double, double); void ev_stop(double, double, double, double, double); void ev_check(double, double, double, double, double);
             void ev_pre(double); void ev_post(double); void ev_iter(double, double, double, double); void ev_count(double, double); void ev_end(); }
using namespace hub;
static double const* g_in; static long g_k; static double g_t; static double g_phase;
struct Sys {
    SPACEHUB_USING_TYPE_SYSTEM_OF(drv::TS);
    using Particle = typename particles::PointParticles<drv::TS>::Particle;
    template <class L> Sys(double t, L const& l) : n(l.size()) { g_t = t; m = ScalarArray{1.0, 1.0}; }
    double time() const { return g_t; }
    double step_scale() const { return g_in[40 + g_k]; }
    ScalarArray const& mass() const { return m; }
    VectorArray const& pos() const { return p; }
    size_t number() const { return n; }
    void pre_iter_process() { ev_pre((double)g_k); }
    void post_iter_process() { ev_post((double)g_k); }
    size_t n; ScalarArray m; VectorArray p;
};
template <bool Tol> struct It;
template <> struct It<true> {
    double a{-1}, r{-1};
    void set_atol(double x) { a = x; }
    void set_rtol(double x) { r = x; }
    double iterate(Sys& s, double h) { ev_iter((double)g_k, h, a, r); g_t += g_in[80 + g_k]; return g_in[120 + g_k++]; }
};
template <> struct It<false> {
    double iterate(Sys& s, double h) { ev_iter((double)g_k, h, -1, -1); g_t += g_in[80 + g_k]; return g_in[120 + g_k++]; }
};
struct Counting { long n; long limit; bool operator()(Sys& s, double h) { ++n; ev_count((double)n, (double)g_k); return n >= limit; } };
template <bool Tol> static void go(double const* in, double* out) {
    g_in = in; g_k = 0;
    using S = Simulator<Sys, It<Tol>>;
    std::vector<typename Sys::Particle> v(3);
    S sim(in[0], v);
    out[0] = (double)sim.particles().number(); out[1] = sim.particles().time();
    for (long run = 0; run < (long)in[11]; ++run) {
        typename S::RunArgs a;
        if (run == 0) a.step_size = in[1]; else a.step_size = in[14];
        if (in[3] != 0) a.add_stop_condition(run == 0 ? in[2] : in[13]);
        a.time_rtol = in[4]; a.atol = in[5]; a.rtol = in[6];
        for (long i = 0; i < (long)in[7]; ++i) a.add_operation([i](Sys& s, double h, double w) { ev_op((double)i, (double)g_k, s.time(), h, w); }, in[16 + i]);
        for (long i = 0; i < (long)in[8]; ++i) a.add_stop_point_operation([i](Sys& s, double h, double w) { ev_stop((double)i, (double)g_k, s.time(), h, w); }, in[20 + i]);
        for (long i = 0; i < (long)in[9]; ++i) a.add_start_point_operation([i](Sys& s, double h, double w) { ev_start((double)i, (double)g_k, s.time(), h, w); }, in[24 + i]);
        for (long i = 0; i < (long)in[10]; ++i) a.add_stop_condition([i](Sys& s, double h, double w) { ev_check((double)i, (double)g_k, s.time(), h, w); return g_in[160 + 40 * i + g_k] != 0; }, in[28 + i]);
        if (in[12] != 0) a.add_stop_condition(Counting{0, (long)in[12]});
        out[2] = a.is_end_time_set(); out[3] = a.is_stop_condition_set();
        sim.run(a);
        ev_end();
        out[4] = sim.particles().time();
    }
}
extern "C" void runtol(double const* in, double* out) { go<true>(in, out); }
extern "C" void runplain(double const* in, double* out) { go<false>(in, out); }
