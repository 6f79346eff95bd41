// Compensated state through systems and iterators: the same program over plain and over compensated numbers.
// in[0]=n, in[1]=t, in[2..]: 7 per particle, in[64..]: ops, in[200..]: step sizes, in[300+k]: state variable k, in[400+k]: its compensation
// Entry points of the analysis, never executed.
#include "uforce.hpp"
extern "C" { double uf_sr(double id, double r, double e, double h); double uf_se(double id, double r, double e, double h); }
using namespace hub;
using KT = Types<double_k, Vec3>;
template <class T> struct put { static T make(double r, double) { return r; } static double real(T const& x) { return x; } static double err(T const&) { return 0; } };
template <> struct put<double_k> {
    static double_k make(double r, double e) { double_k k(r); k.err = e; return k; }
    static double real(double_k const& x) { return x.real; } static double err(double_k const& x) { return x.err; }
};
#ifdef SYS
template <class S, class TS> void program(double const* in, double* out) {
    using X = typename TS::StateScalar;
    size_t n = (size_t)in[0];
    S s(in[1], drv::read_particles<typename S::Particle>(in + 2, n));
    typename TS::StateScalarArray y;
    s.write_to_scalar_array(y);
    double* q = out; *q++ = y.size();
    for (size_t k = 0; k < y.size(); ++k) y[k] = put<X>::make(in[300 + k], in[400 + k]);
    s.read_from_scalar_array(y);
    for (double const* pc = in + 64; *pc != 0; pc += 2) {
        int op = (int)pc[0]; double h = in[200 + (int)pc[1]];
        if (op == 1) s.drift(h);
        else if (op == 2) s.kick(h);
        else if (op == 3) { auto t = s; s = t; }
        else if (op == 4) { auto t = std::move(s); s = std::move(t); }
    }
    typename TS::StateScalarArray z;
    s.write_to_scalar_array(z);
    for (size_t k = 0; k < z.size(); ++k) { *q++ = put<X>::real(z[k]); *q++ = put<X>::err(z[k]); }
}
extern "C" double uf_acc(double id, double particle, double axis);
// accelerations that do not depend on the state, so that the compensation of one variable cannot reach another through them
template <int ID, bool VD> struct CForce {
    constexpr static bool vel_dependent{VD};
    template <typename P> static void add_acc_to(P const& p, typename P::VectorArray& a) {
        for (size_t i = 0; i < p.number(); ++i) { a[i].x += uf_acc(ID, i, 0); a[i].y += uf_acc(ID, i, 1); a[i].z += uf_acc(ID, i, 2); }
    }
};
using N = CForce<0, false>;
using D = CForce<2, true>;
using F = CForce<1, false>;
template <class T> using PP = particles::PointParticles<T>;
#if SYS == 0
template <class P, class I> using Sys = system::SimpleSystem<P, I>;
#elif SYS == 1
template <class P, class I> using Sys = system::ChainSystem<P, I>;
#elif SYS == 2
template <class P, class I> using Sys = system::RegularizedSystem<P, I, system::ReguType::LogH>;
#elif SYS == 3
template <class P, class I> using Sys = system::RegularizedSystem<P, I, system::ReguType::TTL>;
#elif SYS == 4
template <class P, class I> using Sys = system::ARchainSystem<P, I, system::ReguType::LogH>;
#elif SYS == 5
template <class P, class I> using Sys = system::ARchainSystem<P, I, system::ReguType::TTL>;
#elif SYS == 6
template <class P, class I> using Sys = system::RegularizedSystem<P, I, system::ReguType::None>;
#elif SYS == 7
template <class P, class I> using Sys = system::ARchainSystem<P, I, system::ReguType::None>;
#endif
#define PROG(NAME, ...) \
    extern "C" void plain_##NAME(double const* in, double* out) { program<Sys<PP<drv::TS>, force::Interactions<__VA_ARGS__>>, drv::TS>(in, out); } \
    extern "C" void comp_##NAME(double const* in, double* out) { program<Sys<PP<KT>, force::Interactions<__VA_ARGS__>>, KT>(in, out); }
PROG(n, N) PROG(s, N, F) PROG(d, N, D) PROG(sd, N, F, D)
#else
// iterators over a stub whose state is one compensated number per variable
template <class TS> struct Base {
    using Scalar = double; using X = typename TS::StateScalar;
    std::vector<X> y;
    template <class A> void write_to_scalar_array(A& a) { a.resize(y.size()); for (size_t i = 0; i < y.size(); ++i) a[i] = y[i]; }
    template <class A> void read_from_scalar_array(A const& a) { y.resize(a.size()); for (size_t i = 0; i < y.size(); ++i) y[i] = a[i]; }
    size_t variable_number() const { return y.size(); }
    double step_scale() const { return 1.0; }
    double time() const { return 0; }
    void init(double const* in, size_t n) { y.resize(n); for (size_t i = 0; i < n; ++i) y[i] = put<X>::make(in[300 + i], in[400 + i]); }
    void show(double* q) const { for (auto& v : y) { *q++ = put<X>::real(v); *q++ = put<X>::err(v); } }
};
struct NoErr {
    using Scalar = double;
    NoErr(double = 0, double = 0) {}
    void set_atol(double) {} void set_rtol(double) {}
    template <class... A> double error(A const&...) { return 0.5; }
};
struct Ctl {
    void set_safe_guards(double, double) {} void set_limiter(double, double) {} void set_gains(double, double, double) {}
    template <class... A> double next(size_t, A...) { return 1.0; }
    double limiter(size_t, double r) { return r; } double limiter(double r) { return r; } double limiter_min() { return 0.1; }
    template <class... A> double next_with_limiter(size_t, A...) { return 1.0; }
};
template <class TS> struct Deriv : Base<TS> {
    double const* next;
    template <class A> void evaluate_general_derivative(A& d) { d.resize(this->y.size()); for (size_t i = 0; i < this->y.size(); ++i) d[i] = *next++; }
};
template <class TS> void radau(double const* in, double* out) {
    integrator::GaussRadau<TS> g; Deriv<TS> s; s.next = in + 500; s.init(in, 2);
    g.correct(s, in[0]); g.evaluate(s, in[0]); s.show(out);
}
template <class TS> void radau2(double const* in, double* out) {
    integrator::GaussRadau<TS> g; Deriv<TS> s; s.next = in + 500; s.init(in, 2);
    g.integrate(s, in[0]); g.integrate(s, in[1]); s.show(out);
}
template <class TS> struct Incr : Base<TS> {
    double const* next; std::vector<double> inc; bool on{false}, fresh{true};
    template <class A> void read_from_scalar_array(A const& a) { Base<TS>::read_from_scalar_array(a); fresh = true; }
    void clear_increment() { inc.resize(this->y.size()); for (auto& x : inc) x = 0; fresh = true; }
    void collect_increment(bool b) { on = b; }
    auto const& increment() const { return inc; }
    void op() { if (fresh) { for (size_t i = 0; i < this->y.size(); ++i) { this->y[i] = 1e3; if (on) inc[i] += *next++; } fresh = false; } }
    void drift(double) { op(); } void kick(double) { op(); }
};
template <class TS> void bs(double const* in, double* out) {
    ode::BulirschStoer<integrator::LeapFrogDKD<TS>, NoErr, Ctl> it; Incr<TS> s; s.next = in + 500; s.init(in, 2);
    it.iterate(s, in[0]); s.show(out);
}
template <class TS> struct Step : TS {
    SPACEHUB_USING_TYPE_SYSTEM_OF(TS);
    using TypeSystem = TS;
    static constexpr size_t order{4};
    template <class T> void integrate(T& p, double h) {
        using X = typename TS::StateScalar;
        for (size_t i = 0; i < p.y.size(); ++i) { double r = put<X>::real(p.y[i]), e = put<X>::err(p.y[i]); p.y[i] = put<X>::make(uf_sr(i, r, e, h), uf_se(i, r, e, h)); }
    }
};
template <class TS> void seq(double const* in, double* out) {
    ode::SequentOdeIterator<Step<TS>, NoErr, Ctl> it; Base<TS> s; s.init(in, 2);
    it.iterate(s, in[0]); s.show(out);
}
template <class TS> void cst(double const* in, double* out) {
    ode::ConstOdeIterator<Step<TS>> it; Base<TS> s; s.init(in, 2);
    it.iterate(s, in[0]); s.show(out);
}
#define IT(NAME) extern "C" void plain_##NAME(double const* in, double* out) { NAME<drv::TS>(in, out); } extern "C" void comp_##NAME(double const* in, double* out) { NAME<KT>(in, out); }
IT(radau) IT(radau2) IT(bs) IT(seq) IT(cst)
#endif
