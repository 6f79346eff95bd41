// Entries that meet an unrecoverable condition, and their neighbours that do not.  Entry points of the analysis, never executed.
#include "sys.hpp"
#include "tools/config-reader.hpp"
#include "tools/timer.hpp"
#include "tools/auto-name.hpp"
using namespace hub; using namespace hub::ode; using namespace hub::system;
using K = orbit::KeplerOrbit<double>;
using PP = particles::PointParticles<drv::TS>;
#define ENTRY(N) extern "C" void N(double const* in, double* out)
// files
ENTRY(writer) { callback::DefaultWriter w(std::string("x")); out[0] = 1; }
ENTRY(ewriter) { callback::EnergyErrWriter w(std::string("x")); out[0] = 1; }
ENTRY(cfile) { multi_thread::ConcurrentFile f("x", std::ios_base::out); out[0] = 1; }
ENTRY(cfiles) { multi_thread::ConcurrentFile f(std::string("x"), std::ios_base::out); out[0] = 1; }
ENTRY(cfilem) { auto f = multi_thread::make_thread_safe_fstream(std::string("x"), std::ios_base::out); out[0] = 1; }
ENTRY(config) { tools::ConfigReader f("x"); out[0] = 1; }
ENTRY(configs) { tools::ConfigReader f(std::string("x")); out[0] = 1; }
ENTRY(confkey) { tools::ConfigReader f("x"); double v = f.get<double>("key"); out[0] = v; }
ENTRY(confint) { tools::ConfigReader f("x"); int v = f.get<int>("key"); out[0] = v; }
ENTRY(cmdline) { char* v[8] = {}; char t[2] = {'1', 0}; for (auto& p : v) p = t; double a, b; tools::read_command_line((int)in[0], v, a, b); out[0] = 1; }
ENTRY(cmdline1) { char* v[8] = {}; char t[2] = {'1', 0}; for (auto& p : v) p = t; double a; tools::read_command_line((int)in[0], v, a); out[0] = 1; }
// orbits
ENTRY(classify) { out[0] = (double)(int)orbit::classify_orbit(in[0]); }
ENTRY(kepler) { K k(in[0], in[1], in[2], in[3], 0.0, 0.0, 0.0, 0.0); out[0] = k.e; }
ENTRY(kmut) { K k(in[0], in[1], in[2], 0.5, 0.0, 0.0, 0.0, 0.0); k.e = in[3]; k.orbit_type = (orbit::OrbitType)(int)in[4]; out[0] = orbit::time_to_periapsis(k); }
ENTRY(knu) { K k(in[0], in[1], in[2], in[3], 0.0, 0.0, 0.0, 0.0); k.shuffle_nu(); out[0] = 1; }
ENTRY(kran) { K k(in[0], in[1], in[2], in[3], 0.0, 0.0, 0.0, orbit::isotherm); out[0] = 1; }
ENTRY(ellip) { orbit::Elliptic k(in[0], in[1], in[2], in[3], 0.0, 0.0, 0.0, 0.0); out[0] = 1; }
ENTRY(hyper) { orbit::Hyperbolic k(in[0], in[1], in[2], in[3], 0.0, 0.0, 0.0, in[4], in[5] != 0 ? orbit::Hyper::in : orbit::Hyper::out); out[0] = 1; }
ENTRY(period) { out[0] = orbit::period(in[0], in[1], in[2]); }
ENTRY(kperiod) { K k(in[0], in[1], in[2], in[3], 0.0, 0.0, 0.0, 0.0); out[0] = orbit::period(k); }
ENTRY(pperiod) {
    PP::Particle a(in[0], in[2], 0.0, 0.0, 0.0, in[3], 0.0), b(in[1], 0.0, 0.0, 0.0, 0.0, 0.0, 0.0);
    out[0] = orbit::period(a, b);
}
ENTRY(e2t) { out[0] = orbit::E_anomaly_to_T_anomaly(in[1], in[0]); }
ENTRY(t2e) { out[0] = orbit::T_anomaly_to_E_anomaly(in[1], in[0]); }
ENTRY(e2m) { out[0] = orbit::E_anomaly_to_M_anomaly(in[1], in[0]); }
ENTRY(m2e) { out[0] = orbit::M_anomaly_to_E_anomaly(in[1], in[0]); }
ENTRY(t2m) { out[0] = orbit::T_anomaly_to_M_anomaly(in[1], in[0]); }
ENTRY(m2t) { out[0] = orbit::M_anomaly_to_T_anomaly(in[1], in[0]); }
// step control and error measures of types they do not support
struct Odd { double a, b; };
template <class V> struct Arr { using value_type = V; V v[2]; size_t size() const { return 2; } V const& operator[](size_t i) const { return v[i]; } V const* begin() const { return v; } V const* end() const { return v + 2; } };
template <class C> void err3(C c, double* out) { Arr<Odd> a{}; out[0] = c.error(a, a, a); }
template <class C> void err2(C c, double* out) { Arr<Odd> a{}; out[0] = c.error(a, a); }
template <class C> void ok3(C c, double const* in, double* out) { Arr<double> a{{in[0], in[1]}}, b{{in[2], in[3]}}; out[0] = c.error(a, b, b); }
template <class C> void ok2(C c, double const* in, double* out) { Arr<double> a{{in[0], in[1]}}, b{{in[2], in[3]}}; out[0] = c.error(a, b); }
using WO = WorstOffender<drv::TS>; using RM = hub::ode::RMS<drv::TS>; using MR = MaxRatioError<drv::TS>;
ENTRY(wo3) { err3(WO(1, 1), out); }
ENTRY(wo2) { err2(WO(1, 1), out); }
ENTRY(rms3) { err3(RM(1, 1), out); }
ENTRY(mr2) { err2(MR(1, 1), out); }
ENTRY(mr3) { err3(MR(1, 1), out); }
ENTRY(okwo3) { ok3(WO(1, 1), in, out); }
ENTRY(okwo2) { ok2(WO(1, 1), in, out); }
ENTRY(pid3) { PIDController<drv::TS> c; std::array<double, 3> e{in[0], in[1], in[2]}; out[0] = c.next(4, e); }
ENTRY(okpid) { PIDController<drv::TS> c; std::tuple<double, double> e{in[0], in[1]}; out[0] = c.next(4, e); }
// regularisation of an undefined kind
template <int W> void regu(double const* in, double* out) {
    auto v = drv::read_particles<PP::Particle>(in, 2); PP p(0.0, v);
    Regularization<drv::TS, (ReguType)3> r(p);
    if constexpr (W == 0) out[0] = r.eval_pos_phy_time(p, 1.0); else out[0] = r.eval_vel_phy_time(p, 1.0);
}
ENTRY(regup) { regu<0>(in, out); }
ENTRY(reguv) { regu<1>(in, out); }
// arrays of a size that is not the system's
template <class S> void wrong(double const* in, double* out) {
    auto v = drv::read_particles<typename S::Particle>(in + 8, 2); S s(0.0, v);
    typename S::ScalarArray a; s.write_to_scalar_array(a);
    a.resize(a.size() + (long)in[0]);
    s.read_from_scalar_array(a); out[0] = 1;
}
using NF = force::Interactions<force::NewtonianGrav>;
ENTRY(wsimple) { wrong<SimpleSystem<PP, NF>>(in, out); }
ENTRY(wregu) { wrong<RegularizedSystem<PP, NF, ReguType::LogH>>(in, out); }
ENTRY(wchain) { wrong<ChainSystem<PP, NF>>(in, out); }
ENTRY(warchain) { wrong<ARchainSystem<PP, NF, ReguType::LogH>>(in, out); }
#ifdef DEBUG
template <class F> void mismatch(double const* in, double* out, F f) { std::vector<double> a((long)in[0]), b((long)in[1]); f(a, b); out[0] = 1; }
ENTRY(ddot) { mismatch(in, out, [](auto& a, auto& b) { return calc::array_dot(a, b); }); }
ENTRY(dscale) { mismatch(in, out, [](auto& a, auto& b) { calc::array_scale(a, b, 2.0); }); }
ENTRY(ddiv) { mismatch(in, out, [](auto& a, auto& b) { calc::array_div_scale(a, b, 2.0); }); }
#endif
