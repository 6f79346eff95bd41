// helper functions on single particles, argument lists and containers.  Entry points of the analysis, never executed.
// in[0], in[1]: numbers of particles; from in[8]: 8 per particle (m pos vel radius), the second cluster from in[64];
// in[120..125]: target position and velocity; in[128..135]: Kepler elements; in[136..138]: R1 R2 factor
#include "sys.hpp"
using namespace hub;
using SP = particles::SizeParticles<drv::TS>::Particle;
using V = Vec3<double>;
using VP = std::vector<SP>;
static SP rd(double const* q) { SP p; p.mass = q[0]; p.pos = V(q[1], q[2], q[3]); p.vel = V(q[4], q[5], q[6]); p.radius = q[7]; return p; }
static VP rdv(double const* q, size_t n) { VP v; v.reserve(n); for (size_t i = 0; i < n; ++i) v.push_back(rd(q + 8 * i)); return v; }
static double* put(double* o, V const& a) { *o++ = a.x; *o++ = a.y; *o++ = a.z; return o; }
static double* put(double* o, double a) { *o++ = a; return o; }
static double* put(double* o, SP const& p) { *o++ = p.mass; o = put(o, p.pos); o = put(o, p.vel); *o++ = p.radius; return o; }
struct Vals { double* o; template <class... A> void operator()(A const&... a) const {
    double* q = o;
    q = put(q, orbit::M_tot(a...)); q = put(q, orbit::COM_p(a...)); q = put(q, orbit::COM_v(a...)); q = put(q, orbit::E_k(a...)); q = put(q, orbit::E_p(a...));
    q = put(q, orbit::E_k_COM(a...)); q = put(q, orbit::E_tot(a...)); q = put(q, orbit::E_inner(a...)); q = put(q, orbit::cluster_size(a...)); } };
struct Move { double const* in; int what; template <class... A> void operator()(A&... a) const {
    V p(in[120], in[121], in[122]), v(in[123], in[124], in[125]);
    if (what == 0) orbit::move_particles_pos(p, a...);
    else if (what == 1) orbit::move_particles_vel(v, a...);
    else if (what == 2) orbit::move_particles(p, v, a...);
    else orbit::move_to_COM_frame(a...); } };
static orbit::Kepler kep(double const* in) { return orbit::Kepler(in[128], in[129], in[130], in[131], in[132], in[133], in[134], in[135]); }
template <class F> static void spread(F const& f, VP& v) {
    if (v.size() == 1) f(v[0]); else if (v.size() == 2) f(v[0], v[1]); else if (v.size() == 3) f(v[0], v[1], v[2]); else if (v.size() == 4) f(v[0], v[1], v[2], v[3]); }
template <class F> static void grouped(F const& f, VP& v) {
    if (v.size() == 2) f(orbit::group(v[0], v[1])); else if (v.size() == 3) f(orbit::group(v[0], v[1], v[2])); else if (v.size() == 4) f(orbit::group(v[0], v[1], v[2], v[3])); }
extern "C" void vals_vec(double const* in, double* out) { auto v = rdv(in + 8, (size_t)in[0]); Vals{out}(v); }
extern "C" void vals_var(double const* in, double* out) { auto v = rdv(in + 8, (size_t)in[0]); spread(Vals{out}, v); }
extern "C" void vals_grp(double const* in, double* out) { auto v = rdv(in + 8, (size_t)in[0]); grouped(Vals{out}, v); }
template <int W> static void mv(double const* in, double* out, bool var) {
    auto v = rdv(in + 8, (size_t)in[0]);
    if (var) spread(Move{in, W}, v); else Move{in, W}(v);
    for (auto const& p : v) out = put(out, p);
}
extern "C" void mv_vec_0(double const* in, double* out) { mv<0>(in, out, false); }
extern "C" void mv_vec_1(double const* in, double* out) { mv<1>(in, out, false); }
extern "C" void mv_vec_2(double const* in, double* out) { mv<2>(in, out, false); }
extern "C" void mv_vec_3(double const* in, double* out) { mv<3>(in, out, false); }
extern "C" void mv_var_0(double const* in, double* out) { mv<0>(in, out, true); }
extern "C" void mv_var_1(double const* in, double* out) { mv<1>(in, out, true); }
extern "C" void mv_var_2(double const* in, double* out) { mv<2>(in, out, true); }
extern "C" void mv_var_3(double const* in, double* out) { mv<3>(in, out, true); }
// the target is the position and velocity of a particle that is itself moved
extern "C" void mv_vec_4(double const* in, double* out) { auto v = rdv(in + 8, (size_t)in[0]); orbit::move_particles(v[0].pos, v[0].vel, v); for (auto const& p : v) out = put(out, p); }
extern "C" void mv_vec_5(double const* in, double* out) { auto v = rdv(in + 8, (size_t)in[0]); orbit::move_particles_pos(v[0].pos, v); orbit::move_particles_vel(v[0].vel, v); for (auto const& p : v) out = put(out, p); }
extern "C" void mv_var_4(double const* in, double* out) { auto v = rdv(in + 8, (size_t)in[0]); spread([&](auto& a, auto&... r) { orbit::move_particles(a.pos, a.vel, a, r...); }, v); for (auto const& p : v) out = put(out, p); }
extern "C" void mv_var_5(double const* in, double* out) { auto v = rdv(in + 8, (size_t)in[0]); spread([&](auto& a, auto&... r) { orbit::move_particles_pos(a.pos, a, r...); orbit::move_particles_vel(a.vel, a, r...); }, v); for (auto const& p : v) out = put(out, p); }
extern "C" void mv_var_6(double const* in, double* out) {
    auto v = rdv(in + 8, (size_t)in[0]); auto k = kep(in);
    spread([&](auto&... a) { orbit::move_particles(k, a...); }, v);
    for (auto const& p : v) out = put(out, p);
    auto [x, y] = orbit::orbit_to_coord<V>(k); out = put(out, x); out = put(out, y);
}
template <class A, class B> static void pair(double const* in, double* out, A const& a, B const& b) {
    double* q = out; double R1 = in[136], R2 = in[137], f = in[138];
    q = put(q, orbit::M_rdc(a, b)); q = put(q, orbit::calc_eccentricity(a, b)); q = put(q, orbit::calc_semi_major_axis(a, b));
    auto [sa, e] = orbit::calc_a_e(a, b); q = put(q, sa); q = put(q, e);
    q = put(q, orbit::E_tid(a, b, R1, R2)); q = put(q, orbit::E_tid(a, b));
    auto [t1, t2] = orbit::tidal_factor(a, b, R1, R2); q = put(q, t1); q = put(q, t2);
    auto [t3, t4] = orbit::tidal_factor(a, b); q = put(q, t3); q = put(q, t4);
    if constexpr (std::is_same_v<A, VP> && std::is_same_v<B, VP>) { q = put(q, orbit::tidal_radius(f, a, b, R2)); q = put(q, orbit::tidal_radius(f, a, b)); q = put(q, orbit::tidal_radius(f, R1, R2, in[139])); q = put(q, orbit::tidal_radius(f, R1, R2, in[139], in[140])); }
}
template <class A, class B> static void times(double* out, A const& a, B const& b) { out[0] = orbit::time_to_periapsis(a, b); }
template <class A, class B> static void per(double* out, A const& a, B const& b) { out[0] = orbit::period(a, b); }
#define FORMS(N, CALL) \
extern "C" void N##_vv(double const* in, double* out) { auto a = rdv(in + 8, (size_t)in[0]), b = rdv(in + 64, (size_t)in[1]); CALL; } \
extern "C" void N##_pp(double const* in, double* out) { auto a = rd(in + 8), b = rd(in + 64); CALL; } \
extern "C" void N##_pv(double const* in, double* out) { auto a = rd(in + 8); auto b = rdv(in + 64, (size_t)in[1]); CALL; } \
extern "C" void N##_vp(double const* in, double* out) { auto a = rdv(in + 8, (size_t)in[0]); auto b = rd(in + 64); CALL; }
FORMS(pair, pair(in, out, a, b))
FORMS(time, times(out, a, b))
FORMS(per, per(out, a, b))
