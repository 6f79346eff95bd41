// energy and momentum helpers over the particle systems.  in[0]=n, in[1]=t, 7 per particle from in[2]; in[100]: reference energy
#include "uforce.hpp"
using namespace hub;
using PP = particles::PointParticles<drv::TS>;
using I = force::Interactions<drv::UForce<0, false>>;
#if SYS == 0
using S = system::SimpleSystem<PP, I>;
#elif SYS == 1
using S = system::ChainSystem<PP, I>;
#elif SYS == 2
using S = system::RegularizedSystem<PP, I, system::ReguType::LogH>;
#elif SYS == 3
using S = system::RegularizedSystem<PP, I, system::ReguType::TTL>;
#elif SYS == 4
using S = system::ARchainSystem<PP, I, system::ReguType::LogH>;
#elif SYS == 5
using S = system::ARchainSystem<PP, I, system::ReguType::TTL>;
#elif SYS == 6
using S = system::RegularizedSystem<PP, I, system::ReguType::None>;
#elif SYS == 7
using S = system::ARchainSystem<PP, I, system::ReguType::None>;
#endif
template <class C> static void ene(C const& s, double* q, double E0, size_t n) {
    *q++ = calc::calc_kinetic_energy(s); *q++ = calc::calc_potential_energy(s); *q++ = calc::calc_total_energy(s);
    auto L = calc::calc_total_angular_momentum(s); *q++ = L.x; *q++ = L.y; *q++ = L.z;
    *q++ = calc::calc_step_scale(s); *q++ = calc::calc_energy_error(s, E0);
    std::vector<size_t> id;
    for (size_t i = 0; i < n; ++i) {
        id.push_back(n - 1 - i);
        auto A = calc::calc_angular_momentum(s, id); *q++ = A.x; *q++ = A.y; *q++ = A.z;
        auto B = calc::calc_isolated_angular_momentum(s, id); *q++ = B.x; *q++ = B.y; *q++ = B.z;
    }
}
extern "C" void ene_sys(double const* in, double* out) {
    size_t n = (size_t)in[0];
    S s(in[1], drv::read_particles<PP::Particle>(in + 2, n));
    if (in[102] != 0) s.drift(in[101]);   // now the potential differs from the one at construction
    ene(s, out, in[100], n);
    drv::write_sys(s, out + 100);
#if SYS >= 2
    out[60] = s.bindE();
#endif
}
extern "C" void ene_ptc(double const* in, double* out) { size_t n = (size_t)in[0]; PP s(in[1], drv::read_particles<PP::Particle>(in + 2, n)); ene(s, out, in[100], n); }
extern "C" void ene_pair(double const* in, double* out) { auto v = drv::read_particles<PP::Particle>(in + 2, 2); out[0] = calc::calc_potential_energy(v[0], v[1]); }
