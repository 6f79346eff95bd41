// Parallel loops with recorded workers (thread creation and joining are cut by the analysis).  Entry points, never executed.
#include "sys.hpp"
#include "multi-thread/multi-thread.hpp"
extern "C" void ev_item(long tag, long a, long b);
using namespace hub::multi_thread;
// callables that change their own state (every worker has a copy of its own) and whose copies keep the tag and whose moved-from objects lose it
struct Token {
    long tag;
    explicit Token(long t) : tag(t) {}
    Token(Token const& o) : tag(o.tag) {}
    Token(Token&& o) noexcept : tag(o.tag) { o.tag = -1; }
};
struct Loop : Token {
    using Token::Token;
    void operator()(size_t b, size_t e) const { ev_item(tag, (long)b, (long)e); }
};
struct Job : Token {
    using Token::Token;
    void operator()(Token x, long y) { ev_item(tag, x.tag, y); tag += 100; }
    void operator()() { ev_item(tag, 0, 0); tag += 100; }
};
struct Indexed : Token {
    using Token::Token;
    void operator()(size_t i, Token x, long y) { ev_item(tag * 1000 + x.tag, (long)i, y); tag += 100; }
    void operator()(size_t i) { ev_item(tag, (long)i, 0); tag += 100; }
};
#define ENTRY(N) extern "C" void N(long const* in, double* out)
ENTRY(loop_r) { multi_threads_loop(in[0], in[1], Loop(7)); }
ENTRY(loop_l) { Loop f(7); multi_threads_loop(in[0], in[1], f); out[0] = f.tag; }
ENTRY(loop_c) { Loop const f(7); multi_threads_loop(in[0], in[1], f); out[0] = f.tag; }
ENTRY(job_r) { multi_thread(in[1], Job(7)); }
ENTRY(job_l) { Job f(7); multi_thread(in[1], f); out[0] = f.tag; }
ENTRY(job_ra) { multi_thread(in[1], Job(7), Token(5), 3L); }
ENTRY(job_la) { Job f(7); Token x(5); multi_thread(in[1], f, x, 3L); out[0] = f.tag; out[1] = x.tag; }
ENTRY(idx_r) { indexed_multi_thread(in[1], Indexed(7)); }
ENTRY(idx_l) { Indexed f(7); indexed_multi_thread(in[1], f); out[0] = f.tag; }
ENTRY(idx_ra) { indexed_multi_thread(in[1], Indexed(7), Token(5), 3L); }
ENTRY(idx_la) { Indexed f(7); Token x(5); indexed_multi_thread(in[1], f, x, 3L); out[0] = f.tag; out[1] = x.tag; }
ENTRY(auto_j) { auto_multi_thread(Job(7), Token(5), 3L); }
ENTRY(auto_i) { auto_indexed_multi_thread(Indexed(7), Token(5), 3L); }
ENTRY(counts) { out[0] = (double)machine_thread_num; out[1] = (double)auto_thread; }
