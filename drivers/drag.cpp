// gas drag of the disc models.  Entry points of the analysis, never executed.
// in[0]=n; 8 per particle from in[8]: m px py pz vx vy vz radius; prior accelerations from in[100]
#include "sys.hpp"
#include "interaction/disk-capture-star.hpp"
using namespace hub;
double force::AlphaDisk::Q = 1, force::AlphaDisk::alpha = 1, force::AlphaDisk::lambda = 1;
int force::AlphaDisk::force = 0;
using PP = particles::SizeParticles<drv::TS>;
static PP rd(double const* in) {
    std::vector<PP::Particle> v; size_t n = (size_t)in[0]; v.reserve(n);
    for (size_t i = 0; i < n; ++i) { double const* q = in + 8 + 8 * i; PP::Particle p; p.mass = q[0]; p.pos = {q[1], q[2], q[3]}; p.vel = {q[4], q[5], q[6]}; p.radius = q[7]; v.push_back(p); }
    return PP(in[1], v);
}
template <class F> static void go(double const* in, double* out) {
    auto s = rd(in); size_t n = s.number(); PP::VectorArray a(n);
    for (size_t i = 0; i < n; ++i) a[i] = {in[100 + 3 * i], in[101 + 3 * i], in[102 + 3 * i]};
    F::add_acc_to(s, a);
    for (size_t i = 0; i < n; ++i) { *out++ = a[i].x; *out++ = a[i].y; *out++ = a[i].z; }
}
#define H(N) extern "C" void N(double const* in, double* out)
H(capture) { go<force::DiskCaptureStar>(in, out); }
H(alpha0) { force::AlphaDisk::Q = in[200]; force::AlphaDisk::alpha = in[201]; force::AlphaDisk::lambda = in[202]; force::AlphaDisk::force = 0; go<force::AlphaDisk>(in, out); }
H(alphap) { force::AlphaDisk::Q = in[200]; force::AlphaDisk::alpha = in[201]; force::AlphaDisk::lambda = in[202]; force::AlphaDisk::force = 1; go<force::AlphaDisk>(in, out); }
H(alpham) { force::AlphaDisk::Q = in[200]; force::AlphaDisk::alpha = in[201]; force::AlphaDisk::lambda = in[202]; force::AlphaDisk::force = -1; go<force::AlphaDisk>(in, out); }
H(magneto) { go<force::MagnetoDisk>(in, out); }

template <class C> static double* wr(C const& c, double* out) { *out++ = c.size(); for (double x : c) *out++ = x; return out; }
H(tables) { using namespace force; out = wr(_GDF_lgM, out); out = wr(_GDF_I, out); out = wr(_mag_disk_lgr_cgs, out); out = wr(_mag_disk_lgrho_cgs, out); out = wr(_mag_disk_lgH_cgs, out); wr(_mag_disk_v_cgs, out); }
H(unit_cm) { out[0] = unit::cm; out[1] = unit::sec; out[2] = unit::kg; }
