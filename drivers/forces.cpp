// Entry points of the value-graph analysis (never executed): one pair force over n particles.
// in[0]=n, in[1..8]=chain order, from in[16]: 16 doubles per particle (m p3 v3 a3 radius k tau)
#include "sys.hpp"
using namespace hub;
using PT = particles::TideParticles<drv::TS>;
struct Plain : PT {
    using PT::PT;
    using Vector = drv::TS::Vector; using VectorArray = drv::TS::VectorArray; using Scalar = double;
};
struct Chained : Plain {
    using Plain::Plain;
    typename Plain::VectorArray cp, cv;
    typename drv::TS::IdxArray ix;
    auto const& chain_pos() const { return cp; }
    auto const& chain_vel() const { return cv; }
    auto const& index() const { return ix; }
};
template <class P>
static P make(double const* in, size_t n) {
    std::vector<typename P::Particle> v;
    v.reserve(16);
    for (size_t i = 0; i < n; ++i) {
        double const* q = in + 16 + 16 * i;
        typename P::Particle p;
        p.mass = q[0];
        p.pos = Vec3<double>(q[1], q[2], q[3]);
        p.vel = Vec3<double>(q[4], q[5], q[6]);
        p.radius = q[10]; p.tide_apsidal_const = q[11]; p.tide_lag_time = q[12];
        v.push_back(p);
    }
    return P(0.0, v);
}
template <class A>
static void start(A& a, double const* in, size_t n) {
    a.resize(n);
    for (size_t i = 0; i < n; ++i) { a[i].x = in[16 + 16 * i + 7]; a[i].y = in[16 + 16 * i + 8]; a[i].z = in[16 + 16 * i + 9]; }
}
template <class A>
static void stop(A const& a, double* out, size_t n) {
    for (size_t i = 0; i < n; ++i) { out[3 * i] = a[i].x; out[3 * i + 1] = a[i].y; out[3 * i + 2] = a[i].z; }
}
extern "C" void f_plain(double const* in, double* out) {
    size_t n = (size_t)in[0];
    auto p = make<Plain>(in, n);
    typename PT::VectorArray a;
    start(a, in, n);
    FORCE::add_acc_to(p, a);
    stop(a, out, n);
}
extern "C" void f_chain(double const* in, double* out) {
    size_t n = (size_t)in[0];
    auto p = make<Chained>(in, n);
    p.ix.resize(n); p.cp.resize(n); p.cv.resize(n);
    for (size_t i = 0; i < n; ++i) p.ix[i] = (size_t)in[1 + i];
    for (size_t i = 0; i + 1 < n; ++i) {
        p.cp[i] = p.pos(p.ix[i + 1]) - p.pos(p.ix[i]);
        p.cv[i] = p.vel(p.ix[i + 1]) - p.vel(p.ix[i]);
    }
    if (n) { p.cp[n - 1] = p.pos(p.ix[0]); p.cv[n - 1] = p.vel(p.ix[0]); }
    typename PT::VectorArray a;
    start(a, in, n);
    FORCE::add_acc_to(p, a);
    stop(a, out, n);
}
extern "C" void f_c(double const* in, double* out) { out[0] = consts::C; out[1] = consts::G; }
