// Random draws over a scripted source of variates (the library's engines and distributions are cut by the analysis).  Entry points, never executed.
#include <cmath>
#define root_bisection root_bisection_original
#include "math.hpp"
#undef root_bisection
extern "C" double uf_root(double, double, double, double, double);
extern "C" double uf_x(double);
namespace hub::math {
    template <typename Fun>
    auto root_bisection(Fun f, decltype(f(0)) low, decltype(f(0)) high) -> decltype(f(0)) { double x = uf_x(0); return uf_root(f(x), low, high, f(low), f(high)); }
}
#include "sys.hpp"
#include "scattering/cross-section.hpp"
using namespace hub;
#define ENTRY(N) extern "C" void N(double const* in, double* out)
ENTRY(uni) { out[0] = random::Uniform(in[0], in[1]); out[1] = random::Uniform(in[0], in[1]); }
ENTRY(lg) { out[0] = random::Logarithm(in[0], in[1]); }
ENTRY(pw) { out[0] = random::PowerLaw(in[2], in[0], in[1]); }
ENTRY(nrm) { out[0] = random::Normal(in[0], in[1]); out[1] = random::Normal(in[0], in[1]); }
ENTRY(nrm0) { out[0] = random::Normal(); }
ENTRY(nrm1) { out[0] = random::Normal(in[0]); }
ENTRY(tn) { out[0] = random::TruncatedNormal(in[0], in[1], in[2], in[3]); }
ENTRY(tn0) { out[0] = random::TruncatedNormal(in[0], in[1]); }
ENTRY(mx) { out[0] = random::Maxwellian(in[0]); }
ENTRY(tm) { out[0] = random::TruncatedMaxwellian(in[0], in[1], in[2]); }
ENTRY(n2) { auto p = random::Normal2(in[0]); out[0] = p.first; out[1] = p.second; }
ENTRY(fx) { out[0] = random::Fixed(in[0]); }
ENTRY(par) {
    random::Parameter p(random::Uniform, in[0], in[1]);
    long w = (long)in[2];
    if (w == 1) p.set_min(in[3]); else if (w == 2) p.set_max(in[4]); else if (w == 3) p.set_boundary(in[3], in[4]); else if (w == 4) { p.set_max(in[4]); p.set_min(in[3]); }
    out[0] = p.draw();
}
ENTRY(parn) {
    random::Parameter p(random::Normal, in[0], in[1]);
    long w = (long)in[2];
    if (w == 1) p.set_min(in[3]); else if (w == 2) p.set_max(in[4]); else if (w == 3) p.set_boundary(in[3], in[4]);
    random::Parameter q = p;
    out[0] = q.draw(); out[1] = q.draw();
}
ENTRY(parf) { random::Parameter p(random::Fixed, in[0]); out[0] = p.draw(); }
using K = orbit::KeplerOrbit<double>;
template <class O> void put(double* out, O const& k) { double v[] = {k.m1, k.m2, k.p, k.e, k.i, k.Omega, k.omega, k.nu}; for (int j = 0; j < 8; ++j) out[j] = v[j]; }
constexpr orbit::RandomIndicator R{};
ENTRY(ki) { put(out, K(in[0], in[1], in[2], in[3], R, in[5], in[6], in[7])); }
ENTRY(kO) { put(out, K(in[0], in[1], in[2], in[3], in[4], R, in[6], in[7])); }
ENTRY(ko) { put(out, K(in[0], in[1], in[2], in[3], in[4], in[5], R, in[7])); }
ENTRY(kall) { put(out, K(in[0], in[1], in[2], in[3], R, R, R, in[7])); }
ENTRY(kn) { put(out, K(in[0], in[1], in[2], in[3], in[4], in[5], in[6], R)); }
ENTRY(shi) { K k(in[0], in[1], in[2], in[3], in[4], in[5], in[6], in[7]); k.shuffle_i(); put(out, k); }
ENTRY(shO) { K k(in[0], in[1], in[2], in[3], in[4], in[5], in[6], in[7]); k.shuffle_Omega(); put(out, k); }
ENTRY(sho) { K k(in[0], in[1], in[2], in[3], in[4], in[5], in[6], in[7]); k.shuffle_omega(); put(out, k); }
ENTRY(shn) { K k(in[0], in[1], in[2], in[3], in[4], in[5], in[6], in[7]); k.shuffle_nu(); put(out, k); }
