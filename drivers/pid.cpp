// step controller.  in[0] order, in[1] which setters (bit 0 safe guards in[2],in[3]; bit 1 limiter in[4],in[5]; bit 2 gains in[6..8]; bit 3 all of it twice),
// in[10], in[11] errors, in[12] ratio
#include "sys.hpp"
using C = hub::ode::PIDController<drv::TS>;
static void set(C& c, double const* in, int w) {
    if (w & 1) c.set_safe_guards(in[2], in[3]);
    if (w & 2) c.set_limiter(in[4], in[5]);
    if (w & 4) c.set_PID_coefficients(in[6], in[7], in[8]);
}
extern "C" void pid(double const* in, double* out) {
    C c; size_t p = (size_t)in[0]; int w = (int)in[1];
    if (w & 8) { double o[9] = {0, 0, 0.3, 0.4, 0.05, 3.0, 0.1, 0.2, 0.3}; set(c, o, 7); c.next(3, 0.5); }
    if (w & 16) { if (w & 4) c.set_PID_coefficients(in[6], in[7], in[8]); if (w & 2) c.set_limiter(in[4], in[5]); if (w & 1) c.set_safe_guards(in[2], in[3]); }
    else set(c, in, w);
    C const& k = c;
    out[0] = k.next(p, in[10]);
    out[1] = k.next(p, std::make_tuple(in[10]));
    out[2] = k.next(p, std::make_tuple(in[10], in[11]));
    out[3] = k.next_with_limiter(p, in[10]);
    out[4] = k.next_with_limiter(p, std::make_tuple(in[10], in[11]));
    out[5] = k.limiter(p, in[12]); out[6] = k.limiter(in[12]);
    out[7] = k.limiter_min(p); out[8] = k.limiter_max(p); out[9] = k.limiter_min(); out[10] = k.limiter_max();
    C d(c); out[11] = d.next(p, in[10]); out[12] = d.limiter(p, in[12]);
    out[13] = C::max_order;
}
extern "C" void constant(double const* in, double* out) {
    hub::ode::ConstStepController<drv::TS> c;
    out[0] = c.next(4, in[0], in[1]); out[1] = c.next_with_limiter(4, in[0], in[1]);
    out[2] = c.next(4, in[0], std::make_tuple(in[1])); out[3] = c.next_with_limiter(4, in[0], std::make_tuple(in[1], in[2]));
}
