// compensated numbers.  in[0..2] value, error, error of error; in[3..5] the operand's; in[6], in[7] further plain operands.
// out: value, error, error of error of the target, then of the operand, then extra results.  Entry points of the analysis, never executed.
#include <iostream>
#include "kahan-number.hpp"
using namespace hub;
template <class K> struct Has2 { template <class Q> static auto t(int) -> decltype(Q().err_of_err, 1); template <class Q> static void* t(...); static constexpr bool v = std::is_same_v<decltype(t<K>(0)), int>; };
template <class K> static K make(double const* in) {
    using T = typename K::value_type;
    K k((T)in[0]);
    k.err = (T)in[1];
    if constexpr (Has2<K>::v) k.err_of_err = (T)in[2];
    return k;
}
template <class K> static void put(double* o, K const& k) {
    // as long double, so that nothing is rounded on the way out
    long double* p = (long double*)o;
    p[0] = k.real; p[1] = k.err;
    if constexpr (Has2<K>::v) p[2] = k.err_of_err; else p[2] = 0;
}
#define OP(P, N, K, ...) extern "C" void P##N(double const* in, double* out) { using T = typename K::value_type; K a = make<K>(in); K const b = make<K>(in + 3); T x = (T)in[6], y = (T)in[7]; (void)x; (void)y; (void)b; \
        long double* extra = (long double*)(out + 12); extra[0] = 0; __VA_ARGS__; put(out, a); put(out + 6, b); }
#define ALL(P, K) \
    OP(P, addk, K, a += b) OP(P, subk, K, a -= b) OP(P, addx, K, a += x) OP(P, subx, K, a -= x) OP(P, addself, K, a += a) OP(P, subself, K, a -= a) \
    OP(P, seq2, K, a += x; a += y) OP(P, seq3, K, a += x; a -= y; a += b) OP(P, seqs, K, a -= x; a -= y) OP(P, fresh, K, K f(x); f += y; f -= b; a = f) \
    OP(P, seq4, K, a += x; a += y; a += b; a -= x) OP(P, ret, K, (a += x) += y) \
    OP(P, mulk, K, a *= b) OP(P, divk, K, a /= b) OP(P, mulx, K, a *= x) OP(P, divx, K, a /= x) OP(P, mulself, K, a *= a) OP(P, divself, K, a /= a) \
    OP(P, muladd, K, a *= x; a += y) OP(P, neg, K, extra[0] = (-a).real; extra[1] = (-a).err) \
    OP(P, ctor, K, a = K(x)) OP(P, assignx, K, a = x) OP(P, copy, K, K d(b); a = d) OP(P, assignk, K, a = b) OP(P, conv, K, extra[0] = (T)b; extra[1] = b + x) OP(P, zero, K, a.zero_err()) \
    OP(P, read, K, std::cin >> a) OP(P, write, K, std::cout << b) OP(P, bin, K, extra[0] = a + b; extra[1] = a * b)
ALL(kd_, Kahan<double>) ALL(kf_, Kahan<float>) ALL(kl_, Kahan<long double>)
ALL(nd_, Neumaier<double>) ALL(nf_, Neumaier<float>) ALL(nl_, Neumaier<long double>)
ALL(ed_, Klein<double>) ALL(ef_, Klein<float>) ALL(el_, Klein<long double>)
static_assert(std::is_same_v<double_k, Kahan<double>> && std::is_same_v<float_k, Kahan<float>> && std::is_same_v<long_double_k, Kahan<long double>>);
static_assert(std::is_same_v<double_p, Neumaier<double>> && std::is_same_v<float_p, Neumaier<float>> && std::is_same_v<long_double_p, Neumaier<long double>>);
static_assert(std::is_same_v<double_e, Klein<double>> && std::is_same_v<float_e, Klein<float>> && std::is_same_v<long_double_e, Klein<long double>>);
