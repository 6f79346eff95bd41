// Scattering helpers.  Entry points of the analysis, never executed.
// in[0], in[1]: numbers of particles; from in[8] and in[64]: 8 per particle (m pos vel radius); in[120..]: scalars
#include "sys.hpp"
#include "scattering/cross-section.hpp"
using namespace hub;
using SP = particles::SizeParticles<drv::TS>::Particle;
using V = Vec3<double>;
using VP = std::vector<SP>;
static SP rd(double const* q) { SP p; p.mass = q[0]; p.pos = V(q[1], q[2], q[3]); p.vel = V(q[4], q[5], q[6]); p.radius = q[7]; return p; }
static VP rdv(double const* q, size_t n) { VP v; v.reserve(n); for (size_t i = 0; i < n; ++i) v.push_back(rd(q + 8 * i)); return v; }
template <class O> void put(double* out, O const& k) { double v[] = {k.m1, k.m2, k.p, k.e, k.i, k.Omega, k.omega, k.nu, (double)(k.orbit_type == orbit::OrbitType::Hyperbola)}; for (int j = 0; j < 9; ++j) out[j] = v[j]; }
// single particles stand for themselves when the count is 0
template <class F> static void two(double const* in, F f) {
    auto a = rdv(in + 8, in[0] == 0 ? 1 : (size_t)in[0]), b = rdv(in + 64, in[1] == 0 ? 1 : (size_t)in[1]);
    if (in[0] == 0) { if (in[1] == 0) f(a[0], b[0]); else f(a[0], b); }
    else { if (in[1] == 0) f(a, b[0]); else f(a, b); }
}
#define ENTRY(N) extern "C" void N(double const* in, double* out)
ENTRY(crit) { out[0] = scattering::critical_vel(in[0], in[1], in[2], in[3]); }
ENTRY(critc) { two(in, [&](auto const& a, auto const& b) { out[0] = scattering::critical_vel(a, b); }); }
ENTRY(bmax) { out[0] = scattering::b_max(in[0], in[1], in[2]); }
ENTRY(bmaxc) { two(in, [&](auto const& a, auto const& b) { out[0] = scattering::b_max(a, b, in[120], in[121]); }); }
ENTRY(bmaxr) { out[0] = scattering::b_max(in[0], in[1], in[2], in[3], in[4], in[5]); }
ENTRY(inc) { put(out, scattering::incident_orbit(in[0], in[1], in[2], in[3], in[4])); }
ENTRY(incc) { two(in, [&](auto const& a, auto const& b) { put(out, scattering::incident_orbit(a, b, in[120], in[121])); }); }
ENTRY(hard) { out[0] = scattering::hard_radius(in[0], in[1], in[2], in[3]); }
