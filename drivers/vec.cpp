// vector algebra: every operator of the plain, AVX (-DAV -mavx), lazy and mixed-precision vector.  Entry points of the analysis, never executed.
// in[0..2] a, in[3..5] b, in[6] c.  out: result (3 or 1), then a, b as they are afterwards
#include "kahan-number.hpp"
#include "vector/vector3.hpp"
#ifdef AV
#include "vector/vector3d.hpp"
#endif
using namespace hub;
template <class V> static void put(double* o, V const& v) { o[0] = double(v.x); o[1] = double(v.y); o[2] = double(v.z); }
#define OP3(NAME, A, B, ...) extern "C" void NAME(double const* in, double* out) { \
        using SA = typename A::value_type; \
        A a((SA)in[0], (SA)in[1], (SA)in[2]); B b((typename B::value_type)in[3], (typename B::value_type)in[4], (typename B::value_type)in[5]); SA c = in[6]; (void)c; \
        A r(0.0, 0.0, 0.0); __VA_ARGS__; put(out, r); put(out + 3, a); put(out + 6, b); }
#define OP1(NAME, A, B, ...) extern "C" void NAME(double const* in, double* out) { \
        using SA = typename A::value_type; \
        A a((SA)in[0], (SA)in[1], (SA)in[2]); B b((typename B::value_type)in[3], (typename B::value_type)in[4], (typename B::value_type)in[5]); SA c = in[6]; (void)c; \
        out[0] = double(__VA_ARGS__); out[1] = out[2] = 0; put(out + 3, a); put(out + 6, b); }
// operators shared by every vector type
#define VV(P, A, B) \
    OP3(P##add, A, B, r = a + b) OP3(P##sub, A, B, r = a - b) OP3(P##mul, A, B, r = a * b) OP3(P##div, A, B, r = a / b) \
    OP3(P##iadd, A, B, r += b; r -= b; a += b) OP3(P##isub, A, B, a -= b) OP3(P##imul, A, B, a *= b) OP3(P##idiv, A, B, a /= b) \
    OP3(P##chain, A, B, r = a + b * c - a / c) OP3(P##copy, A, B, A d(b); r = d; a = r; a += b) \
    OP1(P##dot, A, B, dot(a, b)) OP1(P##dist, A, B, distance(a, b)) OP3(P##cross, A, B, r = cross(a, b)) OP3(P##across, A, B, a = cross(a, b))
#define VS(P, A) \
    OP3(P##adds, A, A, r = a + c) OP3(P##subs, A, A, r = a - c) OP3(P##muls, A, A, r = a * c) OP3(P##divs, A, A, r = a / c) \
    OP3(P##sadd, A, A, r = c + a) OP3(P##ssub, A, A, r = c - a) OP3(P##smul, A, A, r = c * a) OP3(P##sdiv, A, A, r = c / a) OP3(P##neg, A, A, r = -a) \
    OP3(P##aadd, A, A, a += a) OP3(P##asub, A, A, a -= a) OP3(P##amul, A, A, a *= a) OP3(P##adiv, A, A, a /= a) OP3(P##splat, A, A, r = A(c)) \
    OP1(P##norm, A, A, norm(a)) OP1(P##norm2, A, A, norm2(a)) OP1(P##renorm, A, A, re_norm(a)) OP1(P##maxabs, A, A, max_abs(a)) \
    OP3(P##vmax, A, A, r = vec_max(a, b)) OP3(P##vmin, A, A, r = vec_min(a, b)) OP3(P##vabs, A, A, r = vec_abs(a))
// members only the plain vector has
#define MEM(P, A) \
    OP3(P##iadds, A, A, a += c) OP3(P##isubs, A, A, a -= c) OP3(P##imuls, A, A, a *= c) OP3(P##idivs, A, A, a /= c) OP3(P##assign, A, A, a = c) \
    OP3(P##ixadd, A, A, a += a.x) OP3(P##ixsub, A, A, a -= a.y) OP3(P##ixmul, A, A, a *= a.x) OP3(P##ixdiv, A, A, a /= a.x) OP3(P##xassign, A, A, a = a.z) \
    OP1(P##mnorm, A, A, a.norm()) OP1(P##mnorm2, A, A, a.norm2()) OP1(P##mrenorm, A, A, a.re_norm()) OP1(P##mmax, A, A, a.max_component()) OP3(P##mabs, A, A, r = a.abs()) \
    extern "C" void P##zero(double const*, double* out) { A a; put(out, a); for (int i = 3; i < 9; ++i) out[i] = 0; }
using D = Vec3<double>;
#ifndef AV
using F = Vec3<float>; using LD = Vec3<long double>; using K = Vec3<Kahan<double>>; using L = lazy::LazyVec3<double>;
VV(d_, D, D) VS(d_, D) MEM(d_, D)
VV(ld_, LD, LD) VS(ld_, LD) MEM(ld_, LD)
VV(dld_, D, LD) VV(ldd_, LD, D) VV(df_, D, F) VV(fd_, F, D)
#define KV(P, A, B) OP3(P##add, A, B, r = a + b) OP3(P##sub, A, B, r = a - b) OP3(P##mul, A, B, r = a * b) OP3(P##div, A, B, r = a / b) \
    OP3(P##iadd, A, B, a += b) OP3(P##isub, A, B, a -= b) OP1(P##dot, A, B, dot(a, b)) OP3(P##cross, A, B, r = cross(a, b)) OP1(P##dist, A, B, distance(a, b))
KV(dk_, D, K) KV(kd_, K, D) KV(kk_, K, K)
VV(l_, L, L)
OP3(l_adds, L, L, r = a + c) OP3(l_subs, L, L, r = a - c) OP3(l_muls, L, L, r = a * c) OP3(l_divs, L, L, r = a / c) OP3(l_sadd, L, L, r = c + a) OP3(l_ssub, L, L, r = c - a)
OP3(l_smul, L, L, r = c * a) OP3(l_sdiv, L, L, r = c / a) OP3(l_neg, L, L, r = -a) OP3(l_aadd, L, L, a += a * b) OP3(l_expr, L, L, L d(a - b * a); r = d) OP3(l_imulx, L, L, a *= a + b) OP3(l_idivx, L, L, a /= a - b)
OP3(l_isubx, L, L, a -= a * b) OP3(l_assignx, L, L, a = b - a) OP3(l_splat, L, L, r = L(c))
OP1(l_norm, L, L, norm(a)) OP1(l_norm2, L, L, norm2(a)) OP1(l_renorm, L, L, re_norm(a)) OP1(l_maxabs, L, L, max_abs(a)) OP3(l_vmax, L, L, r = vec_max(a, b)) OP3(l_vmin, L, L, r = vec_min(a, b)) OP3(l_vabs, L, L, r = vec_abs(a))
#else
VV(av_, D, D) VS(av_, D) 
OP3(av_mabs, D, D, r = a.abs())
extern "C" void av_zero(double const*, double* out) { D a; put(out, a); for (int i = 3; i < 9; ++i) out[i] = 0; }
#endif
