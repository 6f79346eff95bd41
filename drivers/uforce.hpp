// Uninterpreted additive forces: the analysis treats uf_* as unknown pure functions.
#pragma once
#include "sys.hpp"
extern "C" {
double uf_fi(double id, double axis, double m, double t, double x, double y, double z);
double uf_fd(double id, double axis, double m, double t, double x, double y, double z, double vx, double vy, double vz);
}
namespace drv {
template <int ID, bool VD>
struct UForce {
    constexpr static bool vel_dependent{VD};
    template <typename P>
    static void add_acc_to(P const& p, typename P::VectorArray& a) {
        auto const& x = p.pos(); auto const& v = p.vel(); auto const& m = p.mass();
        size_t n = p.number();
        double t = p.time();
        for (size_t i = 0; i < n; ++i) {
            if constexpr (VD) {
                a[i].x += uf_fd(ID, 0, m[i], t, x[i].x, x[i].y, x[i].z, v[i].x, v[i].y, v[i].z);
                a[i].y += uf_fd(ID, 1, m[i], t, x[i].x, x[i].y, x[i].z, v[i].x, v[i].y, v[i].z);
                a[i].z += uf_fd(ID, 2, m[i], t, x[i].x, x[i].y, x[i].z, v[i].x, v[i].y, v[i].z);
            } else {
                a[i].x += uf_fi(ID, 0, m[i], t, x[i].x, x[i].y, x[i].z);
                a[i].y += uf_fi(ID, 1, m[i], t, x[i].x, x[i].y, x[i].z);
                a[i].z += uf_fi(ID, 2, m[i], t, x[i].x, x[i].y, x[i].z);
            }
        }
    }
};
}  // namespace drv
