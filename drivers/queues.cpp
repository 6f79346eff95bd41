// Task pool, concurrent queue and file pipes under recorded threads.  Entry points, never executed.
#include <atomic>
#include <condition_variable>
#include <deque>
#include <fstream>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <queue>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#define private public
#include "multi-thread/thread_pool.h"
#undef private
#include "multi-thread/ciostream.hpp"
#include "multi-thread/concurrent-queue.h"
using namespace hub::multi_thread;
extern "C" void ev_task(long tag, long value);
extern "C" void ev_step(long k);
extern "C" void ev_idle();   // the caller rests until nothing else can go on
struct Rec { long v; };
std::ostream& operator<<(std::ostream& o, Rec const& r);
std::istream& operator>>(std::istream& o, Rec& r);
// in[0]: threads, in[1]: capacity, in[2]: number of tasks or records, in[10+k]: their values
#define ENTRY(N) extern "C" void N(long const* in, long* out)
struct Work {
    long tag, v;
    long operator()() const { ev_task(tag, v); return v; }
};
ENTRY(pool_get) {
    ThreadPool p((size_t)in[0], (size_t)in[1]);
    std::vector<std::future<long>> f;
    for (long k = 0; k < in[2]; ++k) f.emplace_back(p.commit(Work{k, in[10 + k]}));
    for (long k = 0; k < in[2]; ++k) out[k] = f[k].get();
}
ENTRY(pool_each) {
    ThreadPool p((size_t)in[0], (size_t)in[1]);
    for (long k = 0; k < in[2]; ++k) out[k] = p.commit([](long a, long b) { ev_task(a, b); return b; }, k, in[10 + k]).get();
}
ENTRY(pool_quit) {
    ThreadPool p((size_t)in[0], (size_t)in[1]);
    for (long k = 0; k < in[2]; ++k) p.commit(Work{k, in[10 + k]});
}
ENTRY(pool_void) {
    ThreadPool p((size_t)in[0], (size_t)in[1]);
    std::vector<std::future<void>> f;
    for (long k = 0; k < in[2]; ++k) f.emplace_back(p.commit([](long a, long b) { ev_task(a, b); }, k, in[10 + k]));
    for (auto& x : f) x.get();
}
ENTRY(pool_fill) {
    ThreadPool p(0, (size_t)in[1]);
    for (long k = 0; k < in[2]; ++k) { p.commit(Work{k, in[10 + k]}); ev_step(k); }
}
ENTRY(opip) {
    Opip<Rec> o("f");
    for (long k = 0; k < in[2]; ++k) o << Rec{in[10 + k]};
}
ENTRY(opip_idle) {
    Opip<Rec> o("f");
    for (long k = 0; k < in[2]; ++k) { o << Rec{in[10 + k]}; ev_idle(); }
}
ENTRY(costream) {
    Costream<Rec> o("f");
    Costream<Rec> q(std::move(o));
    for (long k = 0; k < in[2]; ++k) { Rec const r{in[10 + k]}; q << r; }
}
ENTRY(ipip) {
    Ipip<Rec> i("f");
    for (long k = 0; k < in[2]; ++k) { Rec r{-1}; out[2 * k] = i >> r; out[2 * k + 1] = r.v; }
}
ENTRY(cistream) {
    std::string n("f");
    Cistream<Rec> i(n);
    Cistream<Rec> j(i);
    for (long k = 0; k < in[2]; ++k) { Rec r{-1}; out[2 * k] = (k & 1 ? j : i) >> r; out[2 * k + 1] = r.v; }
}
// in[0]: what the consumers pop from (0 front, 1 back), in[1]: consumers, in[2]: records, in[3]: pushed at (0 back, 1 front)
ENTRY(deque_pass) {
    ConcurrentDeque<Rec> d;
    std::vector<std::thread> t;
    for (long c = 0; c < in[1]; ++c)
        t.emplace_back([&, c] {
            for (long k = 0; k < in[2] / in[1]; ++k) {
                Rec r{-1};
                bool ok = in[0] ? d.try_pop_back(r) : d.try_pop_front(r);
                ev_task(ok, r.v);
            }
        });
    for (long k = 0; k < in[2]; ++k)
        if (in[3]) d.emplace_front(Rec{in[10 + k]}); else d.emplace_back(Rec{in[10 + k]});
    for (auto& x : t) x.join();
    out[0] = d.empty();
}
// waiting pops of an empty queue, which is stopped
ENTRY(deque_stop) {
    ConcurrentDeque<Rec> d;
    std::vector<std::thread> t;
    for (long c = 0; c < in[1]; ++c)
        t.emplace_back([&] {
            Rec r{-1};
            bool ok = in[0] ? d.try_pop_back(r) : d.try_pop_front(r);
            ev_task(ok, r.v);
        });
    d.stop();
    for (auto& x : t) x.join();
}
// in[100+k]: the k-th operation (0 push back, 1 push front, 2 pop front, 3 pop back, 4 empty)
ENTRY(deque_ops) {
    ConcurrentDeque<Rec> d;
    for (long k = 0; k < in[2]; ++k) {
        long const op = in[100 + k];
        if (op == 0) d.emplace_back(Rec{in[10 + k]});
        else if (op == 1) d.emplace_front(Rec{in[10 + k]});
        else if (op == 4) out[k] = d.empty();
        else { Rec r{-1}; bool ok = op == 2 ? d.try_pop_front(r) : d.try_pop_back(r); out[k] = ok ? r.v : -1; }
    }
}
// one thread pushes, another asks whether there is anything
ENTRY(deque_peek) {
    ConcurrentDeque<Rec> d;
    std::thread t([&] { for (long k = 0; k < in[2]; ++k) ev_task(d.empty(), k); });
    for (long k = 0; k < in[2]; ++k)
        if (k & 1) d.emplace_front(Rec{in[10 + k]}); else d.emplace_back(Rec{in[10 + k]});
    t.join();
    out[0] = d.empty();
}
// the first task waits for a result that the second one delivers: both workers have to be busy
ENTRY(pool_pair) {
    std::promise<long> p;
    ThreadPool pool((size_t)in[0], (size_t)in[1]);
    std::shared_future<long> late = p.get_future().share();
    auto a = pool.commit([late](long v) { long w = late.get(); ev_task(0, v); return w; }, in[10]);
    auto b = pool.commit([&p](long v) { ev_task(1, v); p.set_value(v); return v; }, in[11]);
    out[0] = a.get();
    out[1] = b.get();
}
