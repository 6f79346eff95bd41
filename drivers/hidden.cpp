// Everything a program of independent simulations uses: complete runs with every kind of system, iterator and writer, all forces, orbits, scattering, random numbers, files and names.
// Entry points of the analysis, never executed.
#include "sys.hpp"
#include "interaction/alpha-disk.hpp"
#include "interaction/disk-capture-star.hpp"
#include "interaction/magneto-disk.hpp"
#include "interaction/post-newtonian.hpp"
#include "interaction/tidal.hpp"
#include "tools/auto-name.hpp"
#include "tools/config-reader.hpp"
#include "tools/timer.hpp"
using namespace hub; using namespace hub::ode; using namespace hub::system;
#define ENTRY(N) extern "C" void N(double const* in, double* out)
using TP = Types<double>;
template <class Solver> void simulate(double const* in, double* out) {
    auto v = drv::read_particles<typename Solver::Particle>(in + 8, 3);
    Solver sim(in[0], v);
    typename Solver::RunArgs a;
    a.rtol = in[1]; a.atol = in[2];
    a.add_stop_condition((typename Solver::Scalar)in[3]);
    a.add_operation(callback::DefaultWriter("a"));
    a.add_operation(callback::TimeSlice(callback::DefaultWriter("b"), 0.0, in[3], 100));
    a.add_operation(callback::LogTimeSlice(callback::EnergyErrWriter("c"), 0.0, in[3], 100));
    a.add_operation(callback::StepSlice(callback::EnergyErrWriter("d"), 10));
    a.add_start_point_operation(callback::DefaultWriter(tools::auto_name()));
    a.add_stop_point_operation([&](auto& p, auto h) { out[1] = calc::calc_energy_error(p, in[4]); });
    sim.run(a);
    out[0] = sim.particles().time();
}
using namespace hub::methods; using namespace hub::integrator;
#if KIND == 0
ENTRY(bs) { simulate<BS<>>(in, out); }
ENTRY(ar_bs) { simulate<AR_BS<>>(in, out); }
ENTRY(chain_bs) { simulate<Chain_BS<>>(in, out); }
ENTRY(ar_chain) { simulate<AR_Chain<>>(in, out); }
ENTRY(standard) { simulate<DefaultMethod<>>(in, out); }
ENTRY(bs_ext) { simulate<BS_Ext<>>(in, out); }
#elif KIND == 1
ENTRY(sym2) { simulate<Sym2<>>(in, out); }
ENTRY(sym4) { simulate<AR_Sym4<>>(in, out); }
ENTRY(sym6) { simulate<Chain_Sym6<>>(in, out); }
ENTRY(sym8) { simulate<AR_Sym8_Chain<>>(in, out); }
ENTRY(sym10) { simulate<Sym10_Plus<>>(in, out); }
ENTRY(csym2) { simulate<Const_Sym2<>>(in, out); }
ENTRY(csym4) { simulate<Const_AR_Sym4_Plus<>>(in, out); }
#elif KIND == 2
ENTRY(radau) { simulate<hub::methods::Radau<>>(in, out); }
ENTRY(ar_radau) { simulate<AR_Radau_Plus<>>(in, out); }
ENTRY(chain_radau) { simulate<Chain_Radau<>>(in, out); }
ENTRY(ar_radau_chain) { simulate<AR_Radau_Chain<>>(in, out); }
ENTRY(cradau) { simulate<Const_Radau<>>(in, out); }
ENTRY(own_radau) { simulate<Simulator<SimpleSystem<particles::PointParticles<drv::TS>, DefaultForce>, IAS15<GaussRadau<drv::TS>, MaxRatioError<drv::TS>, PIDController<drv::TS>>>>(in, out); }
ENTRY(rms_bs) { simulate<Simulator<SimpleSystem<particles::PointParticles<drv::TS>, DefaultForce>, BulirschStoer<LeapFrogDKD<drv::TS>, ode::RMS<drv::TS>, PIDController<drv::TS>>>>(in, out); }
#elif KIND == 3
using namespace hub::force;
ENTRY(pn) { simulate<AR_Chain_Plus<Interactions<NewtonianGrav, PN1, PN2, PN2p5>, particles::SizeParticles>>(in, out); }
ENTRY(tide) { simulate<BS<Interactions<NewtonianGrav, Tidal>, particles::TideParticles>>(in, out); }
ENTRY(mag) { simulate<BS<Interactions<NewtonianGrav, MagnetoDisk>, particles::SizeParticles>>(in, out); }
ENTRY(alpha) { simulate<BS<Interactions<NewtonianGrav, AlphaDisk>, particles::SizeParticles>>(in, out); }
ENTRY(capture) { simulate<BS<Interactions<NewtonianGrav, DiskCaptureStar>, particles::SizeParticles>>(in, out); }
#endif
