// Concurrent files: every operation on a handle and on a copy of it.  Entry points, never executed.
#include "sys.hpp"
#include "multi-thread/multi-thread.hpp"
using namespace hub::multi_thread;
struct Row { long v; };
extern "C" void ev_func(std::fstream& f, long a);
std::ostream& operator<<(std::ostream& o, Row const& r);
std::istream& operator>>(std::istream& o, Row& r);
#define H extern "C" void
static ConcurrentFile make() { return make_thread_safe_fstream("x", std::ios::in | std::ios::out); }
H put_tuple(ConcurrentFile& f) { f << std::make_tuple(1, 2.0, 'c'); }
H put_value(ConcurrentFile& f) { f << 3.0; }
H put_row(ConcurrentFile& f) { f << Row{1}; }
H put_string(ConcurrentFile& f) { f << std::string("x"); }
H get_value(ConcurrentFile& f) { double x; f >> x; }
H get_row(ConcurrentFile& f) { Row x; f >> x; }
H do_flush(ConcurrentFile& f) { f.flush(); }
H do_eof(ConcurrentFile& f) { f.eof(); }
H do_exec(ConcurrentFile& f) { f.execute([](std::fstream& s, long a) { ev_func(s, a); }, 7L); }
H do_value(ConcurrentFile& f) { f.execute([](std::fstream& s, long a) { ev_func(s, a); return a; }, 7L); }
#define BOTH(N, OP) H N##_h(long const*, double*) { auto f = make(); OP(f); OP(f); } \
                    H N##_c(long const*, double*) { auto f = make(); ConcurrentFile g = f; OP(f); OP(g); } \
                    H N##_a(long const*, double*) { ConcurrentFile f("x", std::ios::out), g(std::string("y"), std::ios::out); g = f; OP(g); OP(f); } \
                    H N##_d(long const*, double*) { auto f = make(), g = make(); OP(f); OP(g); } \
                    H N##_m(long const*, double*) { auto f = make(); ConcurrentFile g = f; ConcurrentFile h = std::move(f); OP(h); OP(g); }
BOTH(put_tuple, put_tuple) BOTH(put_value, put_value) BOTH(put_row, put_row) BOTH(put_string, put_string) BOTH(get_value, get_value) BOTH(get_row, get_row)
BOTH(do_flush, do_flush) BOTH(do_eof, do_eof) BOTH(do_exec, do_exec) BOTH(do_value, do_value)
