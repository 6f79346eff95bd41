// in[0]=n (fixed), in[1]=time, from in[2]: 7 per particle, from in[40]: prior contents 3 per particle
#include "uforce.hpp"
using namespace hub;
using PP = particles::PointParticles<drv::TS>;
struct Plain : PP { using PP::PP; };
using VA = typename drv::TS::VectorArray;
template <class I, int WHAT>
void go(double const* in, double* out) {
    size_t n = (size_t)in[0];
    Plain p(in[1], drv::read_particles<typename PP::Particle>(in + 2, n));
    VA a;
    a.resize(n);
    for (size_t i = 0; i < n; ++i) { a[i].x = in[40 + 3 * i]; a[i].y = in[41 + 3 * i]; a[i].z = in[42 + 3 * i]; }
    if constexpr (WHAT == 0) I::eval_acc(p, a);
    if constexpr (WHAT == 1) I::eval_newtonian_acc(p, a);
    if constexpr (WHAT == 2) I::eval_extra_acc(p, a);
    if constexpr (WHAT == 3) I::eval_extra_vel_dep_acc(p, a);
    if constexpr (WHAT == 4) I::eval_extra_vel_indep_acc(p, a);
    for (size_t i = 0; i < n; ++i) { out[3 * i] = a[i].x; out[3 * i + 1] = a[i].y; out[3 * i + 2] = a[i].z; }
}
template <class I>
void meta(double const* in, double* out) {
    size_t n = (size_t)in[0];
    force::InteractionData<I, VA> d(n);
    out[0] = I::ext_vel_dep; out[1] = I::ext_vel_indep;
    out[2] = d.acc().size(); out[3] = d.newtonian_acc().size(); out[4] = d.tot_vel_indep_acc().size();
    if constexpr (I::ext_vel_indep) out[5] = d.ext_vel_indep_acc().size();
    if constexpr (I::ext_vel_dep) out[6] = d.ext_vel_dep_acc().size();
}
#define ALL(NAME, ...)                                                                                     \
    using I_##NAME = force::Interactions<__VA_ARGS__>;                                                     \
    extern "C" void acc_##NAME(double const* in, double* out) { go<I_##NAME, 0>(in, out); }                \
    extern "C" void newt_##NAME(double const* in, double* out) { go<I_##NAME, 1>(in, out); }               \
    extern "C" void ext_##NAME(double const* in, double* out) { go<I_##NAME, 2>(in, out); }                \
    extern "C" void dep_##NAME(double const* in, double* out) { go<I_##NAME, 3>(in, out); }                \
    extern "C" void ind_##NAME(double const* in, double* out) { go<I_##NAME, 4>(in, out); }                \
    extern "C" void meta_##NAME(double const* in, double* out) { meta<I_##NAME>(in, out); }
using drv::UForce;
using N = UForce<0, false>;
using ND = UForce<0, true>;
template <int K> using D = UForce<K, true>;
template <int K> using S = UForce<K, false>;
ALL(_, N)
ALL(d, N, D<1>) ALL(s, N, S<1>)
ALL(dd, N, D<1>, D<2>) ALL(ds, N, D<1>, S<2>) ALL(sd, N, S<1>, D<2>) ALL(ss, N, S<1>, S<2>)
ALL(ddd, N, D<1>, D<2>, D<3>) ALL(dds, N, D<1>, D<2>, S<3>) ALL(dsd, N, D<1>, S<2>, D<3>) ALL(dss, N, D<1>, S<2>, S<3>)
ALL(sdd, N, S<1>, D<2>, D<3>) ALL(sds, N, S<1>, D<2>, S<3>) ALL(ssd, N, S<1>, S<2>, D<3>) ALL(sss, N, S<1>, S<2>, S<3>)
