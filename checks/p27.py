from hx import *


def run():
    c = Check('P27', 'Parallel loops', 'value graphs of the parallel loops for every item and thread count of the bound, with the creation and joining of threads recorded and each worker run at creation, at its own joining, or last-created first at the first joining; coverage of the items, identity of callable and arguments, joining before the return', min_obl=400,
              assumptions=['std::thread runs the stored call exactly once after its creation and before join returns'])
    m = c.compile('threads.cpp')
    # initialisers of the thread counts
    inits = {}
    for x in m.funcs:
        if x.startswith('__cxx_global_var_init') and m.funcs[x].lines: inits[x] = '\n'.join(m.funcs[x].lines)
    mode = ['']; W = {}

    def worker(g, st, k):
        p = W[k]; W[k] = None
        vp = g.load(st, p, ir.PTR); f = g.load(st, P(vp.obj, ibin_add(vp.off, 16)), ir.PTR)
        st.ev.append(('run', (k,), None))
        r, ns = g.call_fn(f.name, [p], st, 8)
        if r is DEAD: return None
        return ns

    def ibin_add(a, b): return vg.ibin('add', 64, a, b)

    def start(g, st, a, rt, n):
        k = sum(1 for e in st.ev if e[0] == 'start')
        st.ev.append(('start', (k,), g.rloc()))
        p = g.load(st, a[1], ir.PTR); g.store(st, a[1], 0, 8)
        if not isinstance(p, P): raise Undecided('thread without a stored call')
        W[k] = p
        g.store(st, a[0], k + 1, 8)
        if mode[0] == 'at creation':
            st = worker(g, st, k)
            if st is None: return DEAD
        return None, st

    def join(g, st, a, rt, n):
        k = g.load(st, a[0], ir.int_t(64))
        if not isinstance(k, int) or k == 0: raise Undecided('joining something that is no running thread')
        k -= 1
        w = dict(W)
        if mode[0] == 'last-created first':
            for j in sorted(w, reverse=True):
                if w[j] is not None:
                    st = worker(g, st, j)
                    if st is None: return DEAD
        elif w.get(k) is not None:
            st = worker(g, st, k)
            if st is None: return DEAD
        st.ev.append(('join', (k,), None)); g.store(st, a[0], 0, 8)
        return None, st

    def detach(g, st, a, rt, n):
        k = g.load(st, a[0], ir.int_t(64)); st.ev.append(('detach', (k - 1,), g.rloc())); g.store(st, a[0], 0, 8); return None
    machine = [4]
    icp = [(r'^std::thread::_M_start_thread\(', start), (r'^std::thread::join\(\)', join), (r'^std::thread::detach\(\)', detach),
           (r'^std::thread::_State::~_State\(\)', lambda g, st, a, rt, n: None), (r'^std::thread::hardware_concurrency\(\)', lambda g, st, a, rt, n: machine[0]),
           (r'^std::this_thread::yield|^sched_yield', lambda g, st, a, rt, n: 0 if rt.k == 'int' else None)]

    def glob(n): return next((x for x in m.globals_src if x.endswith(n)), None)

    def go(f, n, th, mod):
        mode[0] = mod; machine[0] = th

        def args(g, st, i, o):
            W.clear()
            for x in ('18machine_thread_numE', '11auto_threadE'):
                nm = glob(x)
                if nm and f.startswith('auto'): g.store(st, P(g.glob(nm, st).obj, 0) if isinstance(g.glob(nm, st), P) else P(g.glob(nm, st), 0), th, 8)
            return [P(i, 0), P(o, 0)]
        return c.run(m, f, 4, {0: n, 1: th}, intercepts=icp, args=args, max_steps=2000000)
    names = dict(loop='parallel loop', job='task on every thread', idx='indexed task', auto='task on every hardware thread')
    forms = dict(r='temporary callable', l='named callable', c='constant callable', ra='temporary callable and arguments', la='named callable and arguments', j='temporary callable and arguments', i='indexed, temporary callable and arguments')

    def case(f, n, th, mod):
        kind, form = f.split('_')
        what = '%s, %s' % (names[kind], forms[form])
        at = ('%d items over ' % n if kind == 'loop' else '') + '%d threads, workers run %s' % (th, mod)
        R = go(f, n, th, mod)
        if R.dead: c.decided('complete'); c.violation('complete', what, 'it ends in a failure exit (%s) with %s: a thread is left unjoined' % ([a[1] for a in R.st.aborts][:2], at)); return
        if not c.usable(R, 'complete', what + ' with ' + at): return
        ev = R.st.ev
        items = [e[1] for e in ev if e[0].split('(')[0] == 'ev_item']
        started = [e[1][0] for e in ev if e[0] == 'start']; joined = [e[1][0] for e in ev if e[0] == 'join']; ran = [e[1][0] for e in ev if e[0] == 'run']
        loc = next((e[2] for e in ev if e[0] == 'start'), None)
        c.true('joined', what, sorted(joined) == sorted(started) and not any(e[0] == 'detach' for e in ev), 'it returns while workers %s still run, with %s' % (sorted(set(started) - set(joined)), at), loc)
        sg = lambda x: vg.sgn(x, 64) if isinstance(x, int) else x
        items = [tuple(sg(x) for x in e) for e in items]
        if not all(isinstance(x, int) for e in items for x in e): c.undecided('items', '%s: a worker is handed a value that is no constant' % what); return
        if kind == 'loop':
            bad = [e for e in items if e[0] != 7]
            c.true('callable', what, not bad, 'worker of items %s gets a callable that has been moved away, with %s' % (bad and bad[0][1:], at), loc)
            rs = sorted((b, e) for _, b, e in items if b < e)
            out = next((e for b, e in rs if e > n or b < 0), None)
            c.true('outside', what, out is None, 'items up to %s do not exist, with %s' % (out, at), loc)
            at0 = 0; bad = None
            for b, e in rs + [(n, n)]:
                if b != at0 and bad is None: bad = 'items %d to %d are never run' % (at0, b - 1) if b > at0 else 'items %d to %d run more than once' % (b, at0 - 1)
                at0 = max(e, at0)
            c.true('items', what, bad is None or out is not None, '%s, with %s: the ranges are %s' % (bad, at, [e[1:] for e in items][:12]), loc)
            c.true('threads', what, len(started) <= max(th, 1), '%d workers are started, with %s' % (len(started), at), loc)
            if form != 'r': c.true('untouched', what, R.cells.get(0) is not None and c.out(R, 0) is not None and num(c.out(R, 0)) == 7, "the caller's callable is moved away, with %s" % at, loc)
            return
        c.true('threads', what, len(items) == th, 'the task runs %d times, with %s' % (len(items), at), loc)
        indexed = kind == 'idx' or form == 'i'
        withargs = form not in ('r', 'l')
        if indexed:
            want = sorted((7005, i, 3) if withargs else (7, i, 0) for i in range(th))
        else: want = [(7, 5, 3) if withargs else (7, 0, 0)] * th
        if len(items) == th:
            c.true('arguments', what, sorted(items) == want, 'the workers get %s, requested %s, with %s' % (sorted(items)[:6], want[:6], at), loc)
        if form in ('l', 'la'):
            c.true('untouched', what, num(c.out(R, 0)) == 7 and (form == 'l' or num(c.out(R, 1)) == 5), "the caller's callable or arguments are moved away, with %s" % at, loc)

    def num(x): return int(x.args[0]) if isinstance(x, T) and x.op == 'fc' else x
    modes = ('at creation', 'at their joining', 'last-created first')
    N = 40 if c.thorough else 24; TH = 12 if c.thorough else 9
    for f in ('loop_r', 'loop_l', 'loop_c'):
        for th in range(1, TH + 1):
            for n in range(0, N + 1):
                for mod in modes if n in (0, 1, th, 2 * th + 1) or (c.thorough and n < 20) else modes[:1] if f == 'loop_r' else (): case(f, n, th, mod)
    for th in (2, 3, 7, 64):
        for n in (63, 64, 65, 1000, 1000003, 2**31 + 5, 2**40 + 13, 2**53 + 1): case('loop_l', n, th, modes[0])
    for f in ('job_r', 'job_l', 'job_ra', 'job_la', 'idx_r', 'idx_l', 'idx_ra', 'idx_la'):
        for th in range(0, TH + 1):
            for mod in modes: case(f, 0, th, mod)
    for f in ('auto_j', 'auto_i'):
        for th in (1, 2, 7): case(f, 0, th, modes[1])
    # the number of hardware threads, as the initialisers compute it
    for hw in (0, 1, 2, 3, 16, 200):
        seen = {}
        for fn_, txt in inits.items():
            machine[0] = hw
            tgt = [x for x in ('18machine_thread_numE', '11auto_threadE') if x in txt]
            if not tgt: continue
            R = c.run(m, fn_, 1, {}, intercepts=icp, args=lambda g, st, i, o: [])
            if not c.usable(R, 'hardware', 'number of hardware threads'): continue
            for t in tgt:
                nm = glob(t); ob = R.g.glob(nm, R.st)
                seen[t] = R.g.load(R.st, ob if isinstance(ob, P) else P(ob, 0), ir.int_t(64))
        for t, nm in (('18machine_thread_numE', 'machine_thread_num'), ('11auto_threadE', 'auto_thread')):
            if t not in seen: c.undecided('hardware', 'initialiser of %s not found' % nm); continue
            c.true('hardware', nm, seen[t] == max(hw, 1), 'on a machine that reports %d threads it is %s' % (hw, seen[t]))
    return c.finish()
