// sliced callbacks: the operation writes into the log it was given.  in[0] start, in[1] end, in[2] number of slices, in[3] calls before, in[4] calls, in[5..7] start, end and number of the
// earlier parameters, in[10 + k] times, in[30 + k] step sizes, in[50 + k] answers of the operation; before a reset k starts at 8.  Entry points of the analysis, never executed.
#include "sys.hpp"
using namespace hub;
struct PS { using Scalar = double; double t; double tag; double time() const { return t; } };
static double const* g_in; static long g_k;
struct VOp { double* log; void operator()(PS& p, double h) { log[0] += 1; log[1] = h; log[2] = p.tag; p.tag += 1; } };
struct BOp { double* log; bool operator()(PS& p, double h) { log[0] += 1; log[1] = h; log[2] = p.tag; p.tag += 1; return g_in[50 + g_k] > 0; } };
template <class S> static void call(S& s, PS& p, double const* in, long k, double* o, VOp const&) { g_k = k; p.t = in[10 + k]; s(p, in[30 + k]); o[3] = 0; }
template <class S> static void call(S& s, PS& p, double const* in, long k, double* o, BOp const&) { g_k = k; p.t = in[10 + k]; o[3] = s(p, in[30 + k]); }
template <class S, class O> static void calls(S& s, O const& op, double const* in, double* out) {
    PS p{0, 100};
    for (long k = 0; k < (long)in[4]; ++k) {
        double* o = out + 8 * k;
        o[4] = in[0];
        call(s, p, in, k, o, op);
        o[0] = op.log[0]; o[1] = op.log[1]; o[2] = op.log[2]; o[5] = p.tag;
    }
}
template <class S, class O> static void pre(S& s, O const& op, double const* in) { PS p{0, 0}; double o[8]; for (long k = 8; k < 8 + (long)in[3]; ++k) call(s, p, in, k, o, op); op.log[0] = 0; op.log[1] = 0; op.log[2] = 0; }
#define SLICE(N, OP) \
    extern "C" void time_##N(double const* in, double* out) { g_in = in; double log[3] = {0, 0, 0}; OP op{log}; callback::TimeSlice s(op, in[0], in[1], (size_t)in[2]); calls(s, op, in, out); } \
    extern "C" void timer_##N(double const* in, double* out) { g_in = in; double log[3] = {0, 0, 0}; OP op{log}; callback::TimeSlice s(op, in[5], in[6], (size_t)in[7]); pre(s, op, in); s.reset_slice_params(in[0], in[1], (size_t)in[2]); calls(s, op, in, out); } \
    extern "C" void log_##N(double const* in, double* out) { g_in = in; double log[3] = {0, 0, 0}; OP op{log}; callback::LogTimeSlice s(op, in[0], in[1], (size_t)in[2]); calls(s, op, in, out); } \
    extern "C" void logr_##N(double const* in, double* out) { g_in = in; double log[3] = {0, 0, 0}; OP op{log}; callback::LogTimeSlice s(op, in[5], in[6], (size_t)in[7]); pre(s, op, in); s.reset_slice_params(in[0], in[1], (size_t)in[2]); calls(s, op, in, out); } \
    extern "C" void step_##N(double const* in, double* out) { g_in = in; double log[3] = {0, 0, 0}; OP op{log}; callback::StepSlice s(op, (size_t)in[2]); calls(s, op, in, out); } \
    extern "C" void stepr_##N(double const* in, double* out) { g_in = in; double log[3] = {0, 0, 0}; OP op{log}; callback::StepSlice s(op, (size_t)in[7]); pre(s, op, in); s.reset_slice_params((size_t)in[2]); calls(s, op, in, out); } \
    extern "C" void getop_##N(double const* in, double* out) { g_in = in; double log[3] = {0, 0, 0}; OP op{log}; PS p{0, in[0]}; \
        callback::TimeSlice a(op, in[0], in[1], 3); callback::LogTimeSlice b(op, 0.0, 16.0, 4); callback::StepSlice c(op, 3); a.operation()(p, in[2]); b.operation()(p, in[2]); c.operation()(p, in[2]); out[0] = log[0]; out[1] = log[1]; }
SLICE(v, VOp) SLICE(b, BOp)
// parameters left to their defaults
static long g_runs;
struct DOp { void operator()(PS& p, double h) { ++g_runs; } };
extern "C" void defaults(double const* in, double* out) {
    g_runs = 0;
    double log[3] = {0, 0, 0}; VOp op{log};
    callback::StepSlice<DOp> d; callback::StepSlice e(op);
    PS p{0, 0};
    for (long k = 0; k < 4; ++k) { d(p, 1.0); e(p, 1.0); out[2 * k] = (double)g_runs; out[2 * k + 1] = log[0]; }
}
