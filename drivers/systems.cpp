// A fixed program of system operations.  in[0]=n, in[1]=t, in[2..]: 7 per particle, in[64..]: (op,arg) pairs, op 0 ends.
// in[200..]: symbolic arguments
#include "uforce.hpp"
using namespace hub;
using PP = particles::PointParticles<drv::TS>;
template <class S> constexpr bool regu_v = false;
template <class P, class I, system::ReguType R> constexpr bool regu_v<system::RegularizedSystem<P, I, R>> = true;
template <class P, class I, system::ReguType R> constexpr bool regu_v<system::ARchainSystem<P, I, R>> = true;
using VA = typename drv::TS::VectorArray;
using SA = typename drv::TS::ScalarArray;
template <class S>
void program(double const* in, double* out) {
    size_t n = (size_t)in[0];
    S s(in[1], drv::read_particles<typename PP::Particle>(in + 2, n));
    SA y;
    double* q = out;
    for (double const* pc = in + 64; *pc != 0; pc += 2) {
        int op = (int)pc[0];
        double h = in[200 + (int)pc[1]];
        if (op == 1) s.drift(h);
        else if (op == 2) s.kick(h);
        else if (op == 3) s.pre_iter_process();
        else if (op == 4) s.post_iter_process();
        else if (op == 5) s.clear_increment();
        else if (op == 6) s.collect_increment(true);
        else if (op == 7) s.collect_increment(false);
        else if (op == 8) s.write_to_scalar_array(y);
        else if (op == 9) s.read_from_scalar_array(y);
        else if (op == 10) s.evaluate_general_derivative(y);
        else if (op == 11) { *q++ = y.size(); for (auto& v : y) *q++ = v; }
        else if (op == 12) {
            *q++ = s.time();
            if constexpr (regu_v<S>) { *q++ = s.omega(); *q++ = s.bindE(); } else { *q++ = 0; *q++ = 0; }
            for (size_t i = 0; i < n; ++i) { *q++ = s.pos()[i].x; *q++ = s.pos()[i].y; *q++ = s.pos()[i].z; }
            for (size_t i = 0; i < n; ++i) { *q++ = s.vel()[i].x; *q++ = s.vel()[i].y; *q++ = s.vel()[i].z; }
        } else if (op == 13) { *q++ = s.increment().size(); for (auto const& v : s.increment()) *q++ = v; }
        else if (op == 14) *q++ = s.step_scale();
        else if (op == 15) { for (size_t k = 0; k < y.size(); ++k) y[k] = in[300 + k]; }
        else if (op == 16) {
            *q++ = s.variable_number(); *q++ = s.time_offset(); *q++ = s.pos_offset(); *q++ = s.vel_offset();
            *q++ = s.auxi_vel_offset();
            if constexpr (regu_v<S>) { *q++ = s.omega_offset(); *q++ = s.bindE_offset(); }
        } else if (op == 17) y.resize((size_t)h);
        else if (op == 18) { VA a(n); s.evaluate_acc(a); for (size_t i = 0; i < n; ++i) { *q++ = a[i].x; *q++ = a[i].y; *q++ = a[i].z; } }
        else if (op == 19) { for (size_t i = 0; i < n; ++i) { *q++ = s.mass()[i]; } *q++ = s.number(); }
    }
}
using drv::UForce;
using N = UForce<0, false>;
using D = UForce<2, true>;
using F = UForce<1, false>;
#if SYS == 0
template <class I> using Sys = system::SimpleSystem<PP, I>;
#elif SYS == 1
template <class I> using Sys = system::ChainSystem<PP, I>;
#elif SYS == 2
template <class I> using Sys = system::RegularizedSystem<PP, I, system::ReguType::LogH>;
#elif SYS == 3
template <class I> using Sys = system::RegularizedSystem<PP, I, system::ReguType::TTL>;
#elif SYS == 4
template <class I> using Sys = system::ARchainSystem<PP, I, system::ReguType::LogH>;
#elif SYS == 5
template <class I> using Sys = system::ARchainSystem<PP, I, system::ReguType::TTL>;
#elif SYS == 6
template <class I> using Sys = system::RegularizedSystem<PP, I, system::ReguType::None>;
#elif SYS == 7
template <class I> using Sys = system::ARchainSystem<PP, I, system::ReguType::None>;
#endif
#ifndef REALF
extern "C" void prog_n(double const* in, double* out) { program<Sys<force::Interactions<N>>>(in, out); }
extern "C" void prog_s(double const* in, double* out) { program<Sys<force::Interactions<N, F>>>(in, out); }
extern "C" void prog_d(double const* in, double* out) { program<Sys<force::Interactions<N, D>>>(in, out); }
extern "C" void prog_sd(double const* in, double* out) { program<Sys<force::Interactions<N, F, D>>>(in, out); }
#else
extern "C" void prog_newton(double const* in, double* out) { program<Sys<force::Interactions<force::NewtonianGrav>>>(in, out); }
extern "C" void prog_pn1(double const* in, double* out) { program<Sys<force::Interactions<force::NewtonianGrav, force::PN1>>>(in, out); }
#endif
