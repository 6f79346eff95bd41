// two-body orbits.  in[0..7]: m1 m2 p e i Omega omega nu; in[8]: an anomaly; in[10..15]: relative position and velocity; in[16..]: v_inf, b, r, a.
// Entry points of the analysis, never executed.
#include <cmath>
// the root finder is replaced by a recorder of the equation it is given; the original stays reachable under another name
#define root_bisection root_bisection_original
#include "math.hpp"
#undef root_bisection
extern "C" void ev_root(double fx, double x, double low, double high, double flow, double fhigh);
extern "C" double uf_x(double);
extern "C" double uf_root(double);
namespace hub::math {
    template <typename Fun>
    auto root_bisection(Fun f, decltype(f(0)) low, decltype(f(0)) high) -> decltype(f(0)) {
        double x = uf_x(0);
        ev_root(f(x), x, low, high, f(low), f(high));
        return uf_root(0);
    }
}
#include "sys.hpp"
using namespace hub;
using V = Vec3<double>; using K = orbit::KeplerOrbit<double>;
static void put(double* o, V const& a, V const& b) { o[0] = a.x; o[1] = a.y; o[2] = a.z; o[3] = b.x; o[4] = b.y; o[5] = b.z; }
static void put(double* o, K const& k) { o[0] = k.m1; o[1] = k.m2; o[2] = k.p; o[3] = k.e; o[4] = k.i; o[5] = k.Omega; o[6] = k.omega; o[7] = k.nu; o[8] = (double)(int)k.orbit_type; }
extern "C" void o2c(double const* in, double* out) {
    K k(in[0], in[1], in[2], in[3], in[4], in[5], in[6], in[7]);
    V p, v; orbit::orbit_to_coord(k, p, v); put(out, p, v);
    auto [q, w] = orbit::orbit_to_coord<V>(k); put(out + 6, q, w); put(out + 12, k);
}
extern "C" void c2o(double const* in, double* out) {
    V p(in[10], in[11], in[12]), v(in[13], in[14], in[15]);
    K k; // the elements of another orbit, from an earlier call
    k.m1 = in[30]; k.m2 = in[31]; k.p = in[32]; k.e = in[33]; k.i = in[34]; k.Omega = in[35]; k.omega = in[36]; k.nu = in[37]; k.orbit_type = orbit::OrbitType::None;
    orbit::coord_to_orbit(in[0], in[1], p, v, k); put(out, k);
    auto j = orbit::coord_to_orbit(in[0], in[1], p, v); put(out + 9, j);
    out[18] = (double)(int)orbit::OrbitType::Ellipse; out[19] = (double)(int)orbit::OrbitType::Parabola; out[20] = (double)(int)orbit::OrbitType::Hyperbola; out[21] = (double)(int)orbit::OrbitType::None;
}
extern "C" void e2t(double const* in, double* out) { out[0] = orbit::E_anomaly_to_T_anomaly(in[8], in[3]); }
extern "C" void t2e(double const* in, double* out) { out[0] = orbit::T_anomaly_to_E_anomaly(in[8], in[3]); }
extern "C" void e2m(double const* in, double* out) { out[0] = orbit::E_anomaly_to_M_anomaly(in[8], in[3]); }
extern "C" void t2m(double const* in, double* out) { out[0] = orbit::T_anomaly_to_M_anomaly(in[8], in[3]); }
extern "C" void m2e(double const* in, double* out) { out[0] = orbit::M_anomaly_to_E_anomaly(in[8], in[3]); }
extern "C" void m2t(double const* in, double* out) { out[0] = orbit::M_anomaly_to_T_anomaly(in[8], in[3]); }
extern "C" void ell(double const* in, double* out) { orbit::Elliptic k(in[0], in[1], in[19], in[3], in[4], in[5], in[6], in[7]); put(out, k); out[9] = k.a; }
extern "C" void hypi(double const* in, double* out) { orbit::Hyperbolic k(in[0], in[1], in[16], in[17], in[4], in[5], in[6], in[18]); put(out, k); out[9] = k.b; }
extern "C" void hypo(double const* in, double* out) { orbit::Hyperbolic k(in[0], in[1], in[16], in[17], in[4], in[5], in[6], in[18], orbit::Hyper::out); put(out, k); out[9] = k.b; }
extern "C" void calc(double const* in, double* out) {
    V p(in[10], in[11], in[12]), v(in[13], in[14], in[15]); double u = in[0];
    V e = orbit::calc_runge_lenz_vector(u, p, v); put(out, e, orbit::calc_angular_momentum(in[0], in[1], p, v));
    out[6] = orbit::calc_eccentricity(u, p, v); out[7] = orbit::calc_semi_major_axis(u, p, v);
    auto [a1, e1] = orbit::calc_a_e(u, p, v); out[8] = a1; out[9] = e1;
    auto [a2, e2] = orbit::calc_a_RL_vector(u, p, v); out[10] = a2; out[11] = e2.x; out[12] = e2.y; out[13] = e2.z;
    auto [a3, e3, l3] = orbit::calc_a_e_L(in[0], in[1], p, v); out[14] = a3; out[15] = e3.x; out[16] = e3.y; out[17] = e3.z; out[18] = l3.x; out[19] = l3.y; out[20] = l3.z;
    out[21] = orbit::semi_latus_rectum(in[19], in[3]);
}
extern "C" void times(double const* in, double* out) {
    K k(in[0], in[1], in[2], in[3], in[4], in[5], in[6], in[7]);
    out[0] = orbit::time_to_periapsis(k);
}
extern "C" void timesu(double const* in, double* out) { out[0] = orbit::time_to_periapsis(orbit::classify_orbit(in[3]), in[0], in[19], in[8]); }
extern "C" void perk(double const* in, double* out) { K k(in[0], in[1], in[2], in[3], in[4], in[5], in[6], in[7]); out[0] = orbit::period(k); }
extern "C" void pera(double const* in, double* out) { out[0] = orbit::period(in[0], in[1], in[19]); }
extern "C" void kind(double const* in, double* out) { out[0] = (double)(int)orbit::classify_orbit(in[3]); }
extern "C" void badp(double const* in, double* out) { K k(in[0], in[1], in[2], in[3], 0.0, 0.0, 0.0, 0.0); put(out, k); }
extern "C" void bade(double const* in, double* out) { orbit::Elliptic k(in[0], in[1], in[19], in[3], 0.0, 0.0, 0.0, 0.0); put(out, k); }
extern "C" void bis(double const* in, double* out) { out[0] = hub::math::root_bisection_original([=](double x) { return in[0] + in[1] * x + in[2] * x * x * x; }, in[3], in[4]); }
