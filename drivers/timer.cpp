// the stopwatch.  Entry point of the analysis, never executed.   in[0] = number of operations, in[1..]: 0 start, 1 pause, 2 reset, 3 read
#include "spaceHub.hpp"
extern "C" void mark(size_t);   // the operation that runs now
extern "C" void ops(double const* in, double* out) {
    hub::tools::Timer t; size_t n = (size_t)in[0];
    for (size_t i = 0; i < n; ++i) {
        int k = (int)in[1 + i]; mark(i);
        if (k == 0) t.start();
        else if (k == 1) t.pause();
        else if (k == 2) t.reset();
        else *out++ = t.get_time();
    }
    mark(n); *out = t.get_time();
}
extern "C" void copied(double const* in, double* out) { hub::tools::Timer t; mark(0); t.start(); hub::tools::Timer u = t; mark(1); *out++ = t.get_time(); mark(2); *out++ = u.get_time(); mark(3); t.pause(); mark(4); *out++ = t.get_time(); *out++ = u.get_time(); }
