// what the writers and the stream operators put on a stream.  Entry points of the analysis, never executed.
// in[0]=n, in[1]=t, in[2]=h (drift between outputs), 7 doubles per particle from in[8]; extra attributes from in[100+8*i]
#include "uforce.hpp"
using namespace hub;
#ifdef COMP
using OTS = Types<Kahan<double>, Vec3>;
#else
using OTS = drv::TS;
#endif
#if PT == 0
using PP = particles::PointParticles<OTS>;
#elif PT == 1
using PP = particles::SizeParticles<OTS>;
#elif PT == 2
using PP = particles::TideParticles<OTS>;
#else
using PP = particles::DragParticles<OTS>;
#endif
using I = force::Interactions<drv::UForce<0, false>>;
#if SYS == 0
using S = system::SimpleSystem<PP, I>;
#elif SYS == 1
using S = system::ChainSystem<PP, I>;
#elif SYS == 2
using S = system::RegularizedSystem<PP, I, system::ReguType::LogH>;
#elif SYS == 3
using S = system::RegularizedSystem<PP, I, system::ReguType::TTL>;
#elif SYS == 4
using S = system::ARchainSystem<PP, I, system::ReguType::LogH>;
#elif SYS == 5
using S = system::ARchainSystem<PP, I, system::ReguType::TTL>;
#elif SYS == 6
using S = system::RegularizedSystem<PP, I, system::ReguType::None>;
#elif SYS == 7
using S = system::ARchainSystem<PP, I, system::ReguType::None>;
#endif
extern "C" std::ostream* the_stream(long k);
static std::vector<PP::Particle> rd(double const* in) {
    std::vector<PP::Particle> v; size_t n = (size_t)in[0]; v.reserve(n);
    for (size_t i = 0; i < n; ++i) {
        double const* q = in + 8 + 7 * i; [[maybe_unused]] double const* x = in + 100 + 8 * i;
        PP::Particle p; p.mass = q[0]; p.pos = {q[1], q[2], q[3]}; p.vel = {q[4], q[5], q[6]};
#if PT == 1 || PT == 2
        p.radius = x[0];
#endif
#if PT == 2
        p.tide_apsidal_const = x[1]; p.tide_lag_time = x[2];
#endif
#if PT == 3
        p.sub_sonic_coef = x[3]; p.local_cs = x[4];
#endif
        v.push_back(p);
    }
    return v;
}
static double val(double x) { return x; }
template <class T> static double val(T const& x) { return x.real; }
// the state through the accessors: time, then per particle mass pos vel and the extra attributes
static double* see(S const& s, double* q) {
    *q++ = val(s.time());
    for (size_t i = 0; i < s.number(); ++i) {
        *q++ = val(s.mass(i)); *q++ = val(s.pos(i).x); *q++ = val(s.pos(i).y); *q++ = val(s.pos(i).z); *q++ = val(s.vel(i).x); *q++ = val(s.vel(i).y); *q++ = val(s.vel(i).z);
#if PT == 1 || PT == 2
        *q++ = s.radius(i);
#endif
#if PT == 2
        *q++ = s.tide_apsidal_const(i); *q++ = s.tide_lag_time(i);
#endif
#if PT == 3
        *q++ = s.sub_sonic_c(i); *q++ = s.local_cs(i);
#endif
    }
    return q;
}
#define H(N) extern "C" void N(double const* in, double* out)
H(names) { S s(in[1], rd(in)); *the_stream(0) << s.column_names(); }
H(plain) { S s(in[1], rd(in)); *the_stream(0) << s; see(s, out); }
H(moved) { S s(in[1], rd(in)); s.drift(in[2]); *the_stream(0) << s; see(s, out); }
H(twice) { S s(in[1], rd(in)); S const b = s; *the_stream(0) << s << b; see(s, out); see(b, out + 100); }
#if PT == 0
// a writer over three outputs with the state moving between them
H(wr) { S s(in[1], rd(in)); callback::DefaultWriter w("x"); w(s, in[3]); see(s, out); s.drift(in[2]); w(s, in[3]); see(s, out + 100); w(s, in[3]); see(s, out + 200); }
// copies of one writer share one file
H(wrcopy) { S s(in[1], rd(in)); callback::DefaultWriter w("x"); auto v = w; w(s, in[3]); see(s, out); v(s, in[3]); see(s, out + 100); auto u = w; u(s, in[3]); see(s, out + 200); }
// two writers have a file each
H(wrtwo) { S s(in[1], rd(in)); callback::DefaultWriter w("x"), v(std::string("y")); w(s, in[3]); see(s, out); v(s, in[3]); see(s, out + 100); }
// as a callback of a run
H(wrrun) { S s(in[1], rd(in)); callback::DefaultWriter w("x"); std::function<void(S&, double)> f = w; f(s, in[3]); see(s, out); f(s, in[3]); see(s, out + 100); std::function<void(S&, double)> g = f; g(s, in[3]); see(s, out + 200); }
H(wrput) { callback::DefaultWriter w("x"); callback::EnergyErrWriter e("y"); w << in[3] << ',' << in[4]; e << in[5] << ',' << in[6]; }
H(ew) { S s(in[1], rd(in)); callback::EnergyErrWriter w("x"); auto v = w; auto E0 = calc::calc_total_energy(s);
    w(s, in[3]); out[0] = val(s.time()); out[1] = val(calc::calc_energy_error(s, E0)); s.drift(in[2]); w(s, in[3]); out[2] = val(s.time()); out[3] = val(calc::calc_energy_error(s, E0));
    s.drift(in[2]); v(s, in[3]); out[4] = val(s.time()); out[5] = val(calc::calc_energy_error(s, E0)); }
#endif
#ifdef GENERIC
namespace hub {
using V = Vec3<double>; using VF = Vec3<float>;
H(o_vec) { *the_stream(0) << V(in[0], in[1], in[2]); }
H(o_vecf) { *the_stream(0) << VF((float)in[0], (float)in[1], (float)in[2]); }
H(o_orb) { *the_stream(0) << orbit::Kepler(in[0], in[1], in[2], in[3], in[4], in[5], in[6], in[7]); }
H(o_kahan) { *the_stream(0) << Kahan<double>(in[0]); }
H(o_neu) { *the_stream(0) << Neumaier<double>(in[0]); }
H(o_klein) { *the_stream(0) << Klein<double>(in[0]); }
H(o_tup1) { *the_stream(0) << std::make_tuple(in[0]); }
H(o_tup) { *the_stream(0) << std::make_tuple(in[0], 7, in[1]); }
H(o_arr) { *the_stream(0) << std::array<double, 3>{in[0], in[1], in[2]}; }
H(o_stdv) { *the_stream(0) << std::vector<double>{in[0], in[1], in[2]}; }
H(o_stdv0) { *the_stream(0) << std::vector<double>{}; }
H(o_csv) { print_csv(*the_stream(0), in[0], in[1], in[2]); }
H(o_csv1) { print_csv(*the_stream(0), in[0]); }
H(o_print) { print(*the_stream(0), in[0], ' ', in[1]); }
H(o_disp) { display(*the_stream(0), in[0], in[1], in[2]); }
extern "C" std::istream* the_input();
H(i_vec) { V v; *the_input() >> v; out[0] = v.x; out[1] = v.y; out[2] = v.z; }
H(i_kahan) { Kahan<double> v; *the_input() >> v; out[0] = v.real; out[1] = v.err; }
H(i_neu) { Neumaier<double> v; *the_input() >> v; out[0] = v.real; out[1] = v.err; }
H(i_klein) { Klein<double> v; *the_input() >> v; out[0] = v.real; out[1] = v.err; }
H(i_input) { input(*the_input(), out[0], out[1], out[2]); }
H(i_tup) { *the_input() >> std::tie(out[0], out[1], out[2]); }
}
#endif
