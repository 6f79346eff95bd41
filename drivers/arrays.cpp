// array helpers.  in[0]=n; scalar arrays at in[8+..], in[16+..], in[24+..], in[32+..]; vector arrays (3 per element) at in[40..], in[60..]; in[80], in[81] scalars
#include "sys.hpp"
using namespace hub;
using V = Vec3<double>; using SA = drv::TS::ScalarArray; using VA = drv::TS::VectorArray;
static SA rs(double const* q, size_t n) { SA a(n); for (size_t i = 0; i < n; ++i) a[i] = q[i]; return a; }
static VA rv(double const* q, size_t n) { VA a(n); for (size_t i = 0; i < n; ++i) a[i] = V(q[3 * i], q[3 * i + 1], q[3 * i + 2]); return a; }
static double* put(double* o, SA const& a) { for (auto x : a) *o++ = x; return o; }
static double* put(double* o, VA const& a) { for (auto const& x : a) { *o++ = x.x; *o++ = x.y; *o++ = x.z; } return o; }
#define SET size_t n = (size_t)in[0]; SA a = rs(in + 8, n), b = rs(in + 16, n), c = rs(in + 24, n), d = rs(in + 32, n); VA v = rv(in + 40, n), w = rv(in + 60, n); double s = in[80], t = in[81];
#define FN(NAME, ...) extern "C" void NAME(double const* in, double* out) { SET; __VA_ARGS__ }
FN(dot2, out[0] = calc::array_dot(a, b); out[1] = calc::array_dot(a, b, c); out[2] = calc::array_dot(a, b, c, d); V r = calc::array_dot(v, a); out[3] = r.x; out[4] = r.y; out[5] = r.z; out[6] = calc::array_sum(a);)
FN(add2, calc::array_add(d, a, b); put(out, d);)
FN(add3, calc::array_add(d, a, b, c); put(out, d);)
FN(addv, calc::array_add(v, v, w); put(out, v);)
FN(zero, calc::set_arrays_zero(a, v, d); out = put(out, a); out = put(out, v); put(out, d);)
FN(zero1, calc::array_set_zero(b); put(out, b);)
FN(scale, calc::array_scale(d, a, s); put(out, d);)
FN(scalei, calc::array_scale(a, a, s); put(out, a);)
FN(scalev, calc::array_scale(w, v, s); put(out, w);)
FN(scadd, calc::array_scale_add(d, a, b, s); put(out, d);)
FN(scadd2, calc::array_scale_add(d, a, s, b, t); put(out, d);)
FN(scsub, calc::array_scale_sub(d, a, b, s); put(out, d);)
FN(divsc, calc::array_div_scale(d, a, s); put(out, d);)
FN(mul2, calc::array_mul(d, a, b); put(out, d);)
FN(mul3, calc::array_mul(d, a, b, c); put(out, d);)
FN(sub, calc::array_sub(d, a, b); put(out, d);)
FN(subi, calc::array_sub(b, a, b); put(out, b);)
FN(adiv, calc::array_div(d, a, b); put(out, d);)
FN(adv1, calc::array_advance(a, b); put(out, a);)
FN(adv2, calc::array_advance(a, b, s); put(out, a);)
FN(adv3, calc::array_advance(d, a, b, s); put(out, d);)
FN(advv, calc::array_advance(v, w, s); put(out, v);)
FN(ret1, calc::array_retreat(a, b); put(out, a);)
FN(ret2, calc::array_retreat(a, b, s); put(out, a);)
FN(ret3, calc::array_retreat(d, a, b, s); put(out, d);)
FN(cdot, calc::coord_dot(d, v, w); put(out, d);)
FN(contr, out[0] = calc::coord_contract_to_scalar(a, v, w); out[1] = calc::coord_contract_to_scalar(v, w);)
FN(com, V r = calc::calc_com(a, v); out[0] = r.x; out[1] = r.y; out[2] = r.z;)
FN(tocom, calc::move_to_com(a, v); put(out, v);)
FN(fall, out[0] = calc::calc_fall_free_time(a, v);)
FN(folds, out[0] = calc::add(a[0], b[0], c[0]); out[1] = calc::mul(a[0], b[0], c[0]); out[2] = calc::any(a[0] < b[0], b[0] < c[0], s < t); out[3] = calc::all(a[0] < b[0], b[0] < c[0], s < t);)
// compensated arrays: value and error
using K = Kahan<double>; using KA = std::vector<K>; using KV = std::vector<Vec3<K>>;
static KA rk(double const* q, double const* e, size_t n) { KA a(n); for (size_t i = 0; i < n; ++i) { a[i].real = q[i]; a[i].err = e[i]; } return a; }
static KV rkv(double const* q, double const* e, size_t n) { KV a(n); for (size_t i = 0; i < n; ++i) { a[i].x.real = q[3 * i]; a[i].y.real = q[3 * i + 1]; a[i].z.real = q[3 * i + 2]; a[i].x.err = e[3 * i]; a[i].y.err = e[3 * i + 1]; a[i].z.err = e[3 * i + 2]; } return a; }
static double* put(double* o, KA const& a) { for (auto const& x : a) { *o++ = x.real; *o++ = x.err; } return o; }
static double* put(double* o, KV const& a) { for (auto const& x : a) { *o++ = x.x.real; *o++ = x.x.err; *o++ = x.y.real; *o++ = x.y.err; *o++ = x.z.real; *o++ = x.z.err; } return o; }
#define SETK SET; KA k = rk(in + 8, in + 16, n), j = rk(in + 24, in + 32, n); KV x = rkv(in + 40, in + 60, n), y = rkv(in + 82, in + 100, n);
#define FNK(NAME, ...) extern "C" void NAME(double const* in, double* out) { SETK; __VA_ARGS__ }
FNK(eload, calc::array_load_err(k, c); calc::array_load_err(x, w); out = put(out, k); put(out, x);)
FNK(esave, calc::array_save_err(d, k); calc::array_save_err(v, x); out = put(out, d); put(out, v);)
FNK(ecopy, calc::array_copy_err(k, j); calc::array_copy_err(x, y); out = put(out, k); put(out, x);)
FNK(ezero, calc::array_set_err_zero(k); calc::array_set_err_zero(x); out = put(out, k); put(out, x);)
FNK(eplain, calc::array_load_err(v, w); calc::array_copy_err(v, w); calc::array_set_err_zero(v); put(out, v);)
