// Driver scaffolding: build a real particle system from a flat input array, apply operations, flatten the result.
// The functions are never executed; they are entry points of the value-graph analysis.
#pragma once
#include <array>
#include <vector>
#include "spaceHub.hpp"
namespace drv {
using namespace hub;
using TS = Types<double, Vec3>;
// in: 7 doubles per particle: m px py pz vx vy vz
template <class P>
std::vector<P> read_particles(double const* in, size_t n) {
    std::vector<P> v;
    v.reserve(n);
    for (size_t i = 0; i < n; ++i) {
        double const* q = in + 7 * i;
        P p;
        p.mass = q[0];
        p.pos = Vec3<double>(q[1], q[2], q[3]);
        p.vel = Vec3<double>(q[4], q[5], q[6]);
        v.push_back(p);
    }
    return v;
}
template <class S>
void write_sys(S const& s, double* out) {
    double* q = out;
    *q++ = s.time();
    for (size_t i = 0; i < s.number(); ++i) {
        *q++ = s.mass()[i];
        *q++ = s.pos()[i].x; *q++ = s.pos()[i].y; *q++ = s.pos()[i].z;
        *q++ = s.vel()[i].x; *q++ = s.vel()[i].y; *q++ = s.vel()[i].z;
    }
}
}  // namespace drv
