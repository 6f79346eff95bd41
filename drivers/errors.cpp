// error norms over plain, compensated and vector arrays, step controller.  Entry points of the analysis, never executed.
#include "sys.hpp"
using namespace hub;
using TS = drv::TS;
using KTS = Types<Kahan<double>, Vec3>;
template <class Arr, class TSy> static Arr arr(double const* in, size_t n) {
    Arr a; a.resize(n);
    using V = typename Arr::value_type;
    for (size_t i = 0; i < n; ++i) {
        if constexpr (std::is_same_v<V, Vec3<double>>) a[i] = Vec3<double>(in[3 * i], in[3 * i + 1], in[3 * i + 2]);
        else a[i] = in[i];
    }
    return a;
}
// in[0] n, in[1] atol, in[2] rtol, in[3] which setters are called (1 constructor, 2 setters, 3 atol only, 4 rtol only, 5 twice), in[10..] a, in[30..] b, in[50..] c
template <class N, class A, class B, int ARGS> static void norm(double const* in, double* out) {
    size_t n = (size_t)in[0];
    int w = (int)in[3];
    N e = w == 1 ? N(in[1], in[2]) : N();
    out[3] = e.atol(); out[4] = e.rtol();
    if (w == 2) { e.set_atol(in[1]); e.set_rtol(in[2]); }
    if (w == 3) e.set_atol(in[1]);
    if (w == 4) e.set_rtol(in[2]);
    if (w == 5) { e.set_rtol(in[4]); e.set_atol(in[5]); e.set_rtol(in[2]); e.set_atol(in[1]); }
    out[1] = e.atol(); out[2] = e.rtol();
    A a = arr<A, TS>(in + 10, n); B b = arr<B, TS>(in + 30, n), c = arr<B, TS>(in + 50, n);
    if constexpr (ARGS == 3) out[0] = e.error(a, b, c); else out[0] = e.error(a, b);
}
using D = std::vector<double>; using K = std::vector<Kahan<double>>; using V = std::vector<Vec3<double>>;
#define N3(NAME, NORM) \
    extern "C" void NAME##_d(double const* in, double* out) { norm<ode::NORM<TS>, D, D, 3>(in, out); } \
    extern "C" void NAME##_k(double const* in, double* out) { norm<ode::NORM<KTS>, K, D, 3>(in, out); } \
    extern "C" void NAME##_v(double const* in, double* out) { norm<ode::NORM<TS>, V, V, 3>(in, out); }
#define N2(NAME, NORM) \
    extern "C" void NAME##_d2(double const* in, double* out) { norm<ode::NORM<TS>, D, D, 2>(in, out); } \
    extern "C" void NAME##_k2(double const* in, double* out) { norm<ode::NORM<KTS>, K, D, 2>(in, out); } \
    extern "C" void NAME##_v2(double const* in, double* out) { norm<ode::NORM<TS>, V, V, 2>(in, out); }
N3(wo, WorstOffender) N3(rms, RMS) N3(mr, MaxRatioError) N2(wo, WorstOffender) N2(mr, MaxRatioError)
