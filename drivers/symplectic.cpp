#include "sys.hpp"
extern "C" { void ev_drift(double); void ev_kick(double); }
struct Stub {
    using Scalar = double;
    double t{0};
    void drift(double h) { ev_drift(h); }
    void kick(double h) { ev_kick(h); }
    void pre_iter_process() {}
    void post_iter_process() {}
    double time() const { return t; }
    double step_scale() const { return 1.0; }
};
using namespace hub::integrator;
#define S(NAME, ...)                                           \
    extern "C" void NAME(double const* in, double* out) {      \
        __VA_ARGS__ i; Stub s;                                 \
        out[0] = __VA_ARGS__::order;                           \
        i.integrate(s, in[0]);                                 \
    }
S(s2, Symplectic2nd<drv::TS>) S(dkd, LeapFrogDKD<drv::TS>) S(kdk, LeapFrogKDK<drv::TS>) S(s4, Symplectic4th<drv::TS>)
S(s6, Symplectic6th<drv::TS>) S(s8, Symplectic8th<drv::TS>) S(s10, Symplectic10th<drv::TS>)
// two steps of the same object: no state is carried over
extern "C" void twice(double const* in, double* out) { Symplectic6th<drv::TS> i; Stub s; i.integrate(s, in[0]); i.integrate(s, in[1]); }
