// in[0]=n, in[1..15] ordering, in[100..] second ordering, in[16..] 3 per particle (up to 12), in[80..] masses
#include "sys.hpp"
using namespace hub;
using VA = typename drv::TS::StateVectorArray;
using IA = typename drv::TS::IdxArray;
using SA = typename drv::TS::ScalarArray;
static void rd(VA& a, double const* in, size_t n) {
    a.resize(n);
    for (size_t i = 0; i < n; ++i) { a[i].x = in[3 * i]; a[i].y = in[3 * i + 1]; a[i].z = in[3 * i + 2]; }
}
static void wr(VA const& a, double* out, size_t n) {
    for (size_t i = 0; i < n; ++i) { out[3 * i] = a[i].x; out[3 * i + 1] = a[i].y; out[3 * i + 2] = a[i].z; }
}
static void ri(IA& a, double const* in, size_t n) {
    for (size_t i = 0; i < n; ++i) a.emplace_back((size_t)in[i]);
}
extern "C" void to_chain(double const* in, double* out) {
    size_t n = (size_t)in[0];
    VA x, ch; IA idx;
    rd(x, in + 16, n); ri(idx, in + 1, n); ch.resize(n);
    Chain::calc_chain(x, ch, idx);
    wr(ch, out, n); wr(x, out + 3 * n, n);
}
extern "C" void to_cart(double const* in, double* out) {
    size_t n = (size_t)in[0];
    VA x, ch; IA idx; SA m(n);
    rd(ch, in + 16, n); ri(idx, in + 1, n); x.resize(n);
    for (size_t i = 0; i < n; ++i) m[i] = in[80 + i];
    Chain::calc_cartesian(m, ch, x, idx);
    wr(x, out, n); wr(ch, out + 3 * n, n);
}
extern "C" void round_trip(double const* in, double* out) {
    size_t n = (size_t)in[0];
    VA x, ch, b; IA idx; SA m(n);
    rd(x, in + 16, n); ri(idx, in + 1, n); ch.resize(n); b.resize(n);
    for (size_t i = 0; i < n; ++i) m[i] = in[80 + i];
    Chain::calc_chain(x, ch, idx);
    Chain::calc_cartesian(m, ch, b, idx);
    wr(b, out, n);
    VA c2; c2.resize(n);
    Chain::calc_chain(b, c2, idx);
    for (size_t i = 0; i < n; ++i) { out[3 * n + 3 * i] = c2[i].x - ch[i].x; out[3 * n + 3 * i + 1] = c2[i].y - ch[i].y; out[3 * n + 3 * i + 2] = c2[i].z - ch[i].z; }
}
extern "C" void reorder(double const* in, double* out) {
    size_t n = (size_t)in[0];
    VA x, ch; IA a, b;
    rd(x, in + 16, n); ri(a, in + 1, n); ri(b, in + 100, n); ch.resize(n);
    Chain::calc_chain(x, ch, a);
    Chain::update_chain(ch, x, a, b);
    out[0] = ch.size();
    wr(ch, out + 1, n);
    for (size_t i = 0; i < n; ++i) { out[1 + 3 * n + i] = a[i]; out[1 + 4 * n + i] = b[i]; }
}
extern "C" void index_of(double const* in, double* out) {
    size_t n = (size_t)in[0];
    VA x; IA idx(n);
    rd(x, in + 16, n);
    Chain::calc_chain_index(x, idx);
    out[0] = idx.size();
    for (size_t i = 0; i < idx.size(); ++i) out[1 + i] = idx[i];
    wr(x, out + 20, n);
}
