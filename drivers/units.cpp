// Units, constants and the helpers built on them.  Entry points of the analysis, never executed.
#include "sys.hpp"
#include "secular.hpp"
using namespace hub; using namespace hub::unit;
#define ENTRY(N) extern "C" void N(double const* in, double* out)
#define UNITS(X) X(AU) X(Ms) X(year) X(deg) X(kyr) X(Myr) X(Gyr) X(month) X(day) X(hr) X(min) X(sec) X(T_hubble) X(kg) X(mp) X(km) X(m) X(cm) X(PC) X(Rs) X(Re) X(Rj) X(kms) X(cms) X(Me) X(Mj) X(Mmoon)
#define ONE(N) ENTRY(unit_##N) { out[0] = unit::N; out[1] = operator""_##N((unsigned long long)(long)in[0]); out[2] = operator""_##N((long double)in[1]); out[3] = 3_##N; out[4] = 2.5_##N; }
UNITS(ONE)
#define CONSTS(X) X(pi) X(a_jupiter) X(e_jupiter) X(LoAN_jupiter) X(AoP_jupiter) X(i_jupiter) X(a_neptune) X(e_neptune) X(LoAN_neptune) X(AoP_neptune) X(i_neptune) X(a_mercury) X(e_mercury) X(LoAN_mercury) X(AoP_mercury) X(i_mercury) X(G) X(C) X(kB) X(kB_on_mp)
#define CST(N) ENTRY(const_##N) { out[0] = consts::N; }
CONSTS(CST)
#define STAR(N, T) ENTRY(star_##N) { out[0] = stellar::stellar_radius(stellar::StarType::T, in[0]); } ENTRY(starl_##N) { out[0] = (double)stellar::stellar_radius(stellar::StarType::T, (long double)in[0]); }
STAR(bh, BH) STAR(ns, NS) STAR(star, STAR) STAR(wd, WD)
ENTRY(elk) { out[0] = secular::ELK_quad_timescale(in[0], in[1], in[2], in[3], in[4], in[5]); }
ENTRY(elko) {
    orbit::Elliptic a(in[0], in[1], in[3], in[6], 0.0, 0.0, 0.0, 0.0), b(in[7], in[2], in[4], in[5], 0.0, 0.0, 0.0, 0.0);
    out[0] = secular::ELK_quad_timescale(a, b);
}
