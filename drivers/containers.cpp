// particle containers: every attribute of every particle after construction, appends, resizing, clearing and copying; printed rows and column names.
// in[0] number of particles, in[1] a second number, in[2] time, in[10 + 16 * i ..]: mass, radius, a, b, px, py, pz, vx, vy, vz.  Entry points of the analysis, never executed.
#include "sys.hpp"
#include <list>
#include <array>
using namespace hub;
using TS = drv::TS;
using KTS = Types<Kahan<double>, Vec3>;
template <class P> struct Kind;
template <class T> struct Kind<particles::PointParticles<T>> {
    using P = typename particles::PointParticles<T>::Particle; using V = typename T::Vector;
    static P vec(double const* p) { return P(p[0], V(p[4], p[5], p[6]), V(p[7], p[8], p[9])); }
    static P sca(double const* p) { return P(p[0], p[4], p[5], p[6], p[7], p[8], p[9]); }
    static P dft(double const* p) { return P(p[0]); }
    template <class Q> static void attr(double* o, Q const& q, size_t i) { o[15] = (double)q.mass().size(); }
    template <class Q> static void set(double const* p, Q& q, size_t i) {}
    static void pattr(double* o, P const& p) {}
};
template <class T> struct Kind<particles::SizeParticles<T>> {
    using P = typename particles::SizeParticles<T>::Particle; using V = typename T::Vector;
    static P vec(double const* p) { return P(p[0], p[1], V(p[4], p[5], p[6]), V(p[7], p[8], p[9])); }
    static P sca(double const* p) { return P(p[0], p[1], p[4], p[5], p[6], p[7], p[8], p[9]); }
    static P dft(double const* p) { return P(p[0], p[1]); }
    template <class Q> static void attr(double* o, Q const& q, size_t i) { o[1] = q.radius(i); o[15] = (double)q.radius().size(); }
    template <class Q> static void set(double const* p, Q& q, size_t i) { q.radius(i) = p[1]; }
    static void pattr(double* o, P const& p) { o[1] = p.radius; }
};
template <class T> struct Kind<particles::TideParticles<T>> {
    using P = typename particles::TideParticles<T>::Particle; using V = typename T::Vector;
    static P vec(double const* p) { return P(p[0], p[1], p[2], p[3], V(p[4], p[5], p[6]), V(p[7], p[8], p[9])); }
    static P sca(double const* p) { return P(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9]); }
    static P dft(double const* p) { return P(p[0], p[1], p[2], p[3]); }
    template <class Q> static void attr(double* o, Q const& q, size_t i) { o[1] = q.radius(i); o[2] = q.tide_apsidal_const(i); o[3] = q.tide_lag_time(i); o[15] = q.radius().size() == q.tide_lag_time().size() && q.radius().size() == q.tide_apsidal_const().size() ? (double)q.radius().size() : -1; }
    template <class Q> static void set(double const* p, Q& q, size_t i) { q.radius(i) = p[1]; q.tide_apsidal_const(i) = p[2]; q.tide_lag_time(i) = p[3]; }
    static void pattr(double* o, P const& p) { o[1] = p.radius; o[2] = p.tide_apsidal_const; o[3] = p.tide_lag_time; }
};
template <class T> struct Kind<particles::DragParticles<T>> {
    using P = typename particles::DragParticles<T>::Particle; using V = typename T::Vector;
    static P vec(double const* p) { return P(p[0], p[2], p[3], V(p[4], p[5], p[6]), V(p[7], p[8], p[9])); }
    static P sca(double const* p) { return P(p[0], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9]); }
    static P dft(double const* p) { return P(p[0], p[2], p[3]); }
    template <class Q> static void attr(double* o, Q const& q, size_t i) { o[2] = q.sub_sonic_c(i); o[3] = q.local_cs(i); o[15] = q.sub_sonic_c().size() == q.local_cs().size() ? (double)q.local_cs().size() : -1; }
    template <class Q> static void set(double const* p, Q& q, size_t i) { q.sub_sonic_c(i) = p[2]; q.local_cs(i) = p[3]; }
    static void pattr(double* o, P const& p) { o[2] = p.sub_sonic_coef; o[3] = p.local_cs; }
};
template <class C> static void show(double* o, C const& q) {
    o[0] = (double)q.number(); o[1] = (double)q.time(); o[2] = (double)q.capacity(); o[3] = (double)q.mass().size(); o[4] = (double)q.pos().size(); o[5] = (double)q.vel().size(); o[6] = (double)q.idn().size();
    for (size_t i = 0; i < q.number(); ++i) {
        double* r = o + 10 + 16 * i;
        r[0] = q.mass(i); Kind<C>::attr(r, q, i);
        r[4] = q.pos(i).x; r[5] = q.pos(i).y; r[6] = q.pos(i).z; r[7] = q.vel(i).x; r[8] = q.vel(i).y; r[9] = q.vel(i).z; r[10] = (double)q.idn(i);
        // the array form of the accessors is the same storage
        r[11] = q.mass()[i]; r[12] = q.pos()[i].x; r[13] = q.vel()[i].y; r[14] = (double)q.idn()[i];
    }
}
template <class C> static std::vector<typename Kind<C>::P> list(double const* in, size_t n) {
    std::vector<typename Kind<C>::P> v;
    for (size_t i = 0; i < n; ++i) v.push_back(i % 2 ? Kind<C>::sca(in + 10 + 16 * i) : Kind<C>::vec(in + 10 + 16 * i));
    return v;
}
template <class C> static void pshow(double* r, typename Kind<C>::P const& p) { r[0] = p.mass; Kind<C>::pattr(r, p); r[4] = p.pos.x; r[5] = p.pos.y; r[6] = p.pos.z; r[7] = p.vel.x; r[8] = p.vel.y; r[9] = p.vel.z; }
#define KIND(N, C) \
    extern "C" void N##_construct(double const* in, double* out) { C q(in[2], list<C>(in, (size_t)in[0])); show(out, q); } \
    extern "C" void N##_fromlist(double const* in, double* out) { auto v = list<C>(in, (size_t)in[0]); std::list<typename Kind<C>::P> l(v.begin(), v.end()); C q(in[2], l); show(out, q); } \
    extern "C" void N##_append(double const* in, double* out) { C q; q.reserve((size_t)in[1]); for (auto& p : list<C>(in, (size_t)in[0])) q.emplace_back(p); show(out, q); } \
    extern "C" void N##_mixed(double const* in, double* out) { auto v = list<C>(in, (size_t)in[0]); size_t k = (size_t)in[1]; C q(in[2], std::vector<typename Kind<C>::P>(v.begin(), v.begin() + k)); q.reserve(20); for (size_t i = k; i < v.size(); ++i) q.emplace_back(v[i]); show(out, q); } \
    extern "C" void N##_shrink(double const* in, double* out) { auto v = list<C>(in, (size_t)in[0]); size_t k = (size_t)in[1]; C q(in[2], v); q.resize(k); for (size_t i = v.size(); i-- > k;) q.emplace_back(v[i]); show(out, q); } \
    extern "C" void N##_grow(double const* in, double* out) { auto v = list<C>(in, (size_t)in[0]); size_t k = (size_t)in[1]; C q(in[2], std::vector<typename Kind<C>::P>(v.begin(), v.begin() + k)); q.resize(v.size()); \
        for (size_t i = k; i < v.size(); ++i) { double const* p = in + 10 + 16 * i; q.mass(i) = p[0]; Kind<C>::set(p, q, i); q.pos(i).x = p[4]; q.pos(i).y = p[5]; q.pos(i).z = p[6]; q.vel(i).x = p[7]; q.vel(i).y = p[8]; q.vel(i).z = p[9]; q.idn(i) = i; } show(out, q); } \
    extern "C" void N##_clear(double const* in, double* out) { auto v = list<C>(in, (size_t)in[0]); C q(in[2], v); q.clear(); out[300] = (double)q.number(); out[301] = (double)q.mass().size(); for (size_t i = v.size(); i-- > 0;) q.emplace_back(v[i]); show(out, q); } \
    extern "C" void N##_copy(double const* in, double* out) { C q(in[2], list<C>(in, (size_t)in[0])); C r(q); C s; s = r; q.clear(); C t(std::move(r)); out[300] = (double)t.number(); show(out, s); } \
    extern "C" void N##_aos(double const* in, double* out) { C q(in[2], list<C>(in, (size_t)in[0])); auto a = q.to_AoS(); out[0] = (double)a.size(); for (size_t i = 0; i < a.size(); ++i) pshow<C>(out + 10 + 16 * i, a[i]); C r(in[2], a); show(out + 150, r); } \
    extern "C" void N##_single(double const* in, double* out) { pshow<C>(out, Kind<C>::vec(in + 10)); pshow<C>(out + 16, Kind<C>::sca(in + 10)); pshow<C>(out + 32, Kind<C>::dft(in + 10)); } \
    extern "C" void N##_print(double const* in, double* out) { C q(in[2], list<C>(in, (size_t)in[0])); std::cout << q; } \
    extern "C" void N##_pprint(double const* in, double* out) { std::cout << Kind<C>::vec(in + 10); } \
    extern "C" void N##_pread(double const* in, double* out) { auto p = Kind<C>::vec(in + 10); std::cin >> p; pshow<C>(out, p); } \
    extern "C" void N##_columns(double const* in, double* out) { C q; std::string s = q.column_names(); std::cout << s; }
KIND(point, particles::PointParticles<TS>) KIND(size, particles::SizeParticles<TS>) KIND(tide, particles::TideParticles<TS>) KIND(drag, particles::DragParticles<TS>)
KIND(pointk, particles::PointParticles<KTS>) KIND(sizek, particles::SizeParticles<KTS>) KIND(tidek, particles::TideParticles<KTS>)
