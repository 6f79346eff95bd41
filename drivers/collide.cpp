// the collision callback.  Entry points of the analysis, never executed.
// in[0]=n, in[1]=t, in[2]=h, 8 doubles per particle from in[8]: mass position velocity radius
#include "uforce.hpp"
using namespace hub;
#ifdef COMP
using OTS = Types<Kahan<double>, Vec3>;
#else
using OTS = drv::TS;
#endif
#if PT == 2
using PP = particles::TideParticles<OTS>;
#else
using PP = particles::SizeParticles<OTS>;
#endif
using I = force::Interactions<drv::UForce<0, false>>;
#if SYS == 0
using S = system::SimpleSystem<PP, I>;
#elif SYS == 1
using S = system::ChainSystem<PP, I>;
#elif SYS == 2
using S = system::RegularizedSystem<PP, I, system::ReguType::LogH>;
#elif SYS == 3
using S = system::RegularizedSystem<PP, I, system::ReguType::TTL>;
#elif SYS == 4
using S = system::ARchainSystem<PP, I, system::ReguType::LogH>;
#elif SYS == 5
using S = system::ARchainSystem<PP, I, system::ReguType::TTL>;
#elif SYS == 6
using S = system::RegularizedSystem<PP, I, system::ReguType::None>;
#elif SYS == 7
using S = system::ARchainSystem<PP, I, system::ReguType::None>;
#endif
static double val(double x) { return x; }
template <class T> static double val(T const& x) { return x.real; }
static std::vector<PP::Particle> rd(double const* in) {
    std::vector<PP::Particle> v; size_t n = (size_t)in[0]; v.reserve(n);
    for (size_t i = 0; i < n; ++i) { double const* q = in + 8 + 8 * i; PP::Particle p; p.mass = q[0]; p.pos = {q[1], q[2], q[3]}; p.vel = {q[4], q[5], q[6]}; p.radius = q[7]; v.push_back(p); }
    return v;
}
template <class C> static void put(S const& s, bool hit, double*& o) {
    *o++ = hit ? 1.0 : 0.0;
    for (size_t i = 0; i < s.number(); ++i) { *o++ = val(s.pos()[i].x); *o++ = val(s.pos()[i].y); *o++ = val(s.pos()[i].z); *o++ = val(s.radius()[i]); }
}
// asked as a function, as a stop condition of a run (the callable a RunArgs stores), and after a drift
extern "C" void ask(double const* in, double* o) { S s(in[1], rd(in)); callback::StickyCollision c; put<S>(s, c(s, typename S::Scalar(in[2])), o); }
extern "C" void moved(double const* in, double* o) { S s(in[1], rd(in)); callback::StickyCollision c; s.drift(typename S::Scalar(in[2])); put<S>(s, c(s, typename S::Scalar(in[2])), o); }
extern "C" void twice(double const* in, double* o) { S s(in[1], rd(in)); callback::StickyCollision c; c(s, typename S::Scalar(in[3])); put<S>(s, c(s, typename S::Scalar(in[2])), o); }
extern "C" void copied(double const* in, double* o) { S s(in[1], rd(in)); callback::StickyCollision c; auto d = c; put<S>(s, d(s, typename S::Scalar(in[2])), o); }
// asked about another system before
extern "C" void second(double const* in, double* o) {
    std::vector<PP::Particle> w(3); for (int i = 0; i < 3; ++i) { w[i].mass = 1; w[i].pos = {double(1 << (2 * i)), 0, 0}; w[i].vel = {0, 0, 0}; w[i].radius = 0.1; }
    S t(in[1], w); callback::StickyCollision c; c(t, typename S::Scalar(in[3])); S s(in[1], rd(in)); put<S>(s, c(s, typename S::Scalar(in[2])), o);
}
