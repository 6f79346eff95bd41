import threading, traceback
from hx import *

POL = ('stay', 'new first', 'turns', 'new first, woken for nothing', 'turns, woken for nothing')


class Kill(BaseException): pass


class Sched:
    """threads of the analysed program as strands of the interpretation that hand over at locks, waits, notifications, creations and joins"""

    def __init__(s, policy, rng=None):
        s.policy = policy; s.rng = rng; s.n = 0; s.th = []; s.cur = 0; s.fail = None; s.err = None
        s.mutex = {}; s.mclock = {}; s.aclock = {}; s.lastw = {}; s.lastr = {}; s.races = []; s.preds = {}; s.writes = []; s.bad = []; s.time = 0
        s.cv = {}; s.tasks = []; s.io = []; s.streams = {}; s.steps = []; s.dead = None; s.broken = False; s.idle = []; s.last = None; s.recs = 0; s.unlocked_end = []
        s.new()

    def new(s):
        t = dict(id=len(s.th), state='ready', pred=None, ev=threading.Event(), clk={}, held=[], reads=set(), done=None, born=s.time, py=None, joined=False, spur=set())
        if s.th:
            p = s.th[s.cur]; t['clk'] = dict(p['clk']); s.tick(p)
        t['clk'][t['id']] = 1
        s.th.append(t); return t

    def tick(s, t): t['clk'][t['id']] = t['clk'].get(t['id'], 0) + 1

    def me(s): return s.th[s.cur]

    # -------------------------------------------------------- handing over
    def runnable(s): return [t['id'] for t in s.th if t['state'] == 'ready' or (t['state'] == 'blocked' and t['pred']())]

    def switch(s, to):
        """the current strand stops here and `to` goes on"""
        me = s.me()
        if to == s.cur: me['state'] = 'ready'; return
        g = s.g; save = (g.callstack, g.dbgstack, vg.CUR_DBG[0])
        me['ev'].clear(); s.cur = to; t = s.th[to]; t['state'] = 'ready'
        t['ev'].set(); me['ev'].wait()
        if s.fail and me['id'] != 0: raise Kill()
        g.callstack, g.dbgstack, vg.CUR_DBG[0] = save
        if s.fail: raise s.err or Undecided('stopped')

    def point(s, kind, new=None):
        """a place where another strand may go on"""
        r = s.runnable()
        if s.rng is not None: to = s.rng.choice(r)
        elif s.policy.startswith('turns'): to = next((x for x in r if x > s.cur), r[0])
        elif s.policy.startswith('new first') and new is not None: to = new
        else: return
        s.switch(to)

    def block(s, pred, why):
        me = s.me(); me['state'] = 'blocked'; me['pred'] = pred; me['why'] = why
        r = s.runnable()
        if not r:
            s.stop('hang', None); 
            if me['id'] == 0: raise Undecided('every thread waits')
            s.to_main(); raise Kill()
        if s.rng is not None: to = s.rng.choice(r)
        else: to = next((x for x in r if x > s.cur), r[0])
        s.switch(to)
        me['state'] = 'ready'

    def stop(s, how, err):
        if not s.fail:
            s.fail = how; s.err = err; s.last = s.g.rloc()
            s.waits = [(t['id'], t.get('why'), t.get('loc')) for t in s.th if t['state'] == 'blocked']

    def to_main(s):
        s.cur = 0; s.th[0]['ev'].set()

    def spawn(s, body):
        t = s.new()

        def w():
            t['ev'].wait()
            try:
                if s.fail: return
                s.g.callstack = []; s.g.dbgstack = []; vg.CUR_DBG[0] = None
                body(t)
            except Kill: return
            except Undecided as e: s.stop('undecided', e); t['state'] = 'done'; s.to_main(); return
            except BaseException as e:
                if os.environ.get('SH_DEBUG'): traceback.print_exc()
                s.stop('undecided', Undecided('unsupported construct: %r' % (e,))); t['state'] = 'done'; s.to_main(); return
            t['state'] = 'done'; s.time += 1; t['done'] = s.time
            if t['held']: s.unlocked_end.append(t['id'])
            r = s.runnable()
            if not r: s.stop('hang', None); s.to_main(); return
            s.cur = r[0] if s.rng is None else s.rng.choice(r); n = s.th[s.cur]; n['state'] = 'ready'; n['ev'].set()
        t['py'] = threading.Thread(target=w, daemon=True)
        threading.stack_size(1 << 28); t['py'].start()
        return t

    def end(s):
        if not s.fail: s.fail = 'over'
        for t in s.th[1:]:
            t['ev'].set(); t['py'].join(20)

    # -------------------------------------------------------- memory
    def sync(s, key, loc=None):
        """an atomic access: both an acquisition and a release"""
        me = s.me(); c = s.aclock.setdefault(key, {})
        for k, v in c.items(): me['clk'][k] = max(me['clk'].get(k, 0), v)
        for k, v in me['clk'].items(): c[k] = max(c.get(k, 0), v)
        s.tick(me)

    def access(s, key, write, loc):
        me = s.me(); i = me['id']; clk = me['clk']
        if write:
            s.time += 1
            if len(s.th) > 1: s.writes.append((key, i, tuple(me['held']), loc, s.time))
        else: me['reads'].add(key)
        if len(s.th) < 2: return
        w = s.lastw.get(key)
        if w and w[0] != i and w[1] > clk.get(w[0], 0): s.races.append((key, w[2], loc))
        if write:
            for j, (t, l) in s.lastr.get(key, {}).items():
                if j != i and t > clk.get(j, 0): s.races.append((key, l, loc))
            s.lastw[key] = (i, clk[i], loc); s.lastr.pop(key, None)
        else: s.lastr.setdefault(key, {})[i] = (clk[i], loc)


def run():
    c = Check('P42', 'Work queues and pipes', 'value graphs of the task pool, the concurrent queue and the file pipes, with every thread a strand of the interpretation that hands over at locks, waits, notifications, creations and joins under several orders; served tasks and records as symbolic values, happens-before of all memory accesses, locks held at writes of what a wait tests', min_obl=300,
              assumptions=['std::thread, std::mutex, std::condition_variable and std::future behave as the standard says; a stream extraction that fails leaves the stream failed'])
    m = c.compile('queues.cpp')
    ATOM = re.compile(r'atomic|__exchange_and_add|_Sp_counted_base')
    BOX = re.compile(r'^_ZN(K?)St(?:5queue|5deque|6vector|7__cxx114list|14priority_queue|3map)I')
    STD = re.compile(r'^_ZN?K?(?:St|9__gnu_cxx)')
    PEEK = ('front', 'back', 'begin', 'end', 'size', 'empty', 'operator', 'at', 'rbegin', 'rend', 'data')
    cur = [None]

    def mkey(p):
        if not isinstance(p, P) or not isinstance(p.off, int): raise Undecided('lock of an unknown mutex')
        return (p.obj, p.off)

    def one_state(S, g, st):
        if S.st is not st: raise Undecided('a branch that the analysis cannot decide has split the state of the threads')

    def acquire(S, k):
        me = S.me()
        if S.mutex.get(k) == me['id']: S.bad.append(('a thread locks the mutex it holds', S.g.rloc())); raise Undecided('relock')
        if S.mutex.get(k) is not None: S.block(lambda: S.mutex.get(k) is None, 'lock')
        S.mutex[k] = me['id']; me['held'].append(k); me['reads'] = set()
        for a, b in S.mclock.get(k, {}).items(): me['clk'][a] = max(me['clk'].get(a, 0), b)

    def release(S, k):
        me = S.me()
        if S.mutex.get(k) != me['id']: S.bad.append(('a thread unlocks a mutex it does not hold', S.g.rloc())); raise Undecided('unlock')
        S.mutex[k] = None; me['held'].remove(k); S.mclock[k] = dict(me['clk']); S.tick(me)

    def lock(g, st, a, rt, n):
        S = cur[0]; one_state(S, g, st); S.point('lock'); acquire(S, mkey(a[0])); S.point('locked'); return 0

    def trylock(g, st, a, rt, n):
        S = cur[0]; one_state(S, g, st); S.point('lock')
        if S.mutex.get(mkey(a[0])) is not None: return 16
        acquire(S, mkey(a[0])); S.point('locked'); return 0

    def unlock(g, st, a, rt, n):
        S = cur[0]; release(S, mkey(a[0])); S.point('unlock'); return 0

    def wait(g, st, a, rt, n):
        S = cur[0]; me = S.me(); cv = mkey(a[0]); mu = g.load(st, a[1], ir.PTR); own = g.load(st, P(a[1].obj, a[1].off + 8), ir.int_t(8))
        k = mkey(mu)
        if own != 1 or S.mutex.get(k) != me['id']: S.bad.append(('a thread waits without holding the lock', g.rloc())); raise Undecided('wait')
        stk = me.setdefault('mine', set())
        for x in me['reads']: S.preds.setdefault((x, k), set()).add(me['id'])
        loc = g.rloc(); me['loc'] = loc
        tok = [False]; S.cv.setdefault(cv, []).append(tok)
        spur = 'nothing' in S.policy or (S.rng is not None and S.rng.random() < .3)
        if spur:
            key = (cv, loc)
            cnt = me.setdefault('sp', {}); cnt[key] = cnt.get(key, 0) + 1
            spur = cnt[key] % 2 == 1 and cnt[key] < 40
        release(S, k)
        if spur: S.point('wait')
        else: S.block(lambda: tok[0] and S.mutex.get(k) is None, 'wait')
        S.cv[cv] = [x for x in S.cv[cv] if x is not tok]
        acquire(S, k)
        return None

    def notify(all_):
        def h(g, st, a, rt, n):
            S = cur[0]; cv = mkey(a[0]); q = S.cv.setdefault(cv, [])
            if S.rng is not None and not all_ and q: i = S.rng.randrange(len(q)); q[i][0] = True; q.pop(i)
            else:
                for t in q[:(None if all_ else 1)]: t[0] = True
                del q[:(len(q) if all_ else 1)]
            S.point('notify'); return None
        return h

    def cvdtor(g, st, a, rt, n):
        S = cur[0]
        if S.cv.get(mkey(a[0])): S.bad.append(('a condition variable is destroyed while a thread waits on it', g.rloc()))
        return None

    def start(g, st, a, rt, n):
        S = cur[0]
        p = g.load(st, a[1], ir.PTR); g.store(st, a[1], 0, 8)
        if not isinstance(p, P): raise Undecided('thread without a stored call')

        def body(t):
            vp = g.load(st, p, ir.PTR); f = g.load(st, P(vp.obj, vg.ibin('add', 64, vp.off, 16)), ir.PTR)
            r, ns = g.call_fn(f.name, [p], st, 8)
            if r is DEAD: S.dead = (t['id'], [x[1] for x in st.aborts][:2]); raise Undecided('a worker ends in a failure exit')
            if ns is not st: raise Undecided('a worker takes a branch the analysis cannot decide')
        t = S.spawn(body)
        g.store(st, a[0], t['id'], 8)
        S.point('create', t['id'])
        return None

    def join(g, st, a, rt, n):
        S = cur[0]; k = g.load(st, a[0], ir.int_t(64))
        if not isinstance(k, int) or k == 0: raise Undecided('joining something that is no running thread')
        t = S.th[k]; me = S.me(); me['loc'] = g.rloc()
        if t['state'] != 'done': S.block(lambda: t['state'] == 'done', 'join')
        for x, y in t['clk'].items(): me['clk'][x] = max(me['clk'].get(x, 0), y)
        t['joined'] = True; g.store(st, a[0], 0, 8); return None

    def detach(g, st, a, rt, n): cur[0].bad.append(('a thread is detached', g.rloc())); g.store(st, a[0], 0, 8); return None

    def once(g, st, a, rt, n):
        S = cur[0]; v = g.load(st, a[0], ir.int_t(32)); S.sync(mkey(a[0]))
        if v != 0: return 0
        g.store(st, a[0], 2, 4)
        f = a[1]
        if not isinstance(f, vg.Fn): raise Undecided('call_once of an unknown function')
        nm = f.name
        if nm not in m.funcs or not m.funcs[nm].lines:
            cell = next((x for x in m.globals_src if x.endswith('11__once_call')), None)
            ob = g.glob(cell, st); fp = g.load(st, ob if isinstance(ob, P) else P(ob, 0), ir.PTR); nm = fp.name
        r, ns = g.call_fn(nm, [], st, 8)
        return DEAD if r is DEAD else 0

    def futex_wait(g, st, a, rt, n):
        S = cur[0]; k = mkey(a[0]); me = S.me(); me['loc'] = g.rloc()
        val = a[1]
        test = lambda: isinstance(ready(), int) and (ready() & 0x7fffffff) == val
        ready = lambda: st.mem[a[0].obj].get(a[0].off, (4, None))[1]
        if not test(): S.block(test, 'future')
        S.sync(k)
        return None if rt.k == 'void' else 1 if rt.k == 'int' and rt.n == 1 else val

    def futex_store(g, st, a, rt, n):
        S = cur[0]; S.sync(mkey(a[0])); g0store(st, a[0], a[1], 4); S.point('future'); return None

    def result(g, st, a, rt, n): g.store(st, P(a[0].obj, a[0].off + 8), 0, 8); return None
    load0 = [None]
    g0store = lambda *a: load0[0](*a)

    # streams
    def ctor(g, st, a, rt, n):
        S = cur[0]; p = a[0]; S.streams[(p.obj, p.off)] = dict(fail=0, eof=0, open=1, got=0)
        for off, v in ((0, 264), (16, 248)):
            vt = g.new_obj('vtable', None, 'input', lambda o, sz, t, v=v: v)
            g.store(st, P(p.obj, p.off + off), P(vt, 64), 8)
        return None

    def owner(p):
        S = cur[0]
        if not isinstance(p, P) or not isinstance(p.off, int): return None
        for (o, off), k in S.streams.items():
            if o is p.obj and off <= p.off < off + 528: return (o, off), k
        return None

    def touch(g, key): cur[0].access((key[0], ('stream', key[1])), True, g.rloc())

    def dtor(g, st, a, rt, n):
        o = owner(a[0])
        if o: touch(g, o[0]); o[1]['open'] = 0
        return None

    def put(g, st, a, rt, n):
        S = cur[0]; o = owner(a[0])
        if o is None: raise Undecided('a record is written to an unknown stream')
        touch(g, o[0])
        S.io.append((g.load(st, a[1], ir.int_t(64)), o[1]['open'], tuple(S.me()['held']))); return a[0]

    def get(g, st, a, rt, n):
        S = cur[0]; o = owner(a[0])
        if o is None: raise Undecided('a record is read from an unknown stream')
        touch(g, o[0]); k = o[1]
        if k['fail'] or k['got'] >= S.recs: k['fail'] = 1; k['eof'] = k['eof'] or int(not S.broken); return a[0]
        g.store(st, a[1], mk('in', 'record[%d]' % k['got'], 'i64'), 8); k['got'] += 1
        return a[0]

    def state(what):
        def h(g, st, a, rt, n):
            o = owner(a[0])
            if o is None: raise Undecided('state of an unknown stream')
            touch(g, o[0]); k = o[1]
            return dict(ok=1 - k['fail'], fail=k['fail'], eof=k['eof'], good=1 - (k['fail'] | k['eof']), open=k['open'])[what]
        return h
    IOS = r'^std::(?:basic_ios<.*>|ios|basic_[io]*stream<.*>|basic_fstream<.*>|fstream)::'
    nothing = lambda g, st, a, rt, n: 0 if rt.k == 'int' else None

    def ev_task(g, st, a, rt, n): S = cur[0]; S.tasks.append((S.cur, tuple(S.me()['held']), a[0], a[1], g.rloc())); return None

    def ev_step(g, st, a, rt, n): cur[0].steps.append(a[0]); return None

    def ev_idle(g, st, a, rt, n):
        S = cur[0]; me = S.me()
        S.block(lambda: not any(t['state'] == 'ready' or (t['state'] == 'blocked' and t['pred']()) for t in S.th if t is not me), 'rest')
        S.idle.append(len(S.io)); return None
    icp = [(r'^ev_idle$', ev_idle), (r'_M_break_promise\(', lambda g, st, a, rt, n: None), (r'^std::future_category\(\)', lambda g, st, a, rt, n: P(g.new_obj('category', None, 'input', lambda o, sz, t: mk('in', 'cat%d' % o, t or 'p')), 0)), (r'^pthread_mutex_lock$', lock), (r'^pthread_mutex_trylock$', trylock), (r'^pthread_mutex_unlock$', unlock), (r'^std::condition_variable::wait\(std::unique_lock<std::mutex>&\)$', wait),
           (r'^std::condition_variable::notify_one\(\)', notify(0)), (r'^std::condition_variable::notify_all\(\)', notify(1)), (r'^std::condition_variable::~condition_variable\(\)', cvdtor),
           (r'^std::condition_variable::condition_variable\(\)', nothing), (r'^std::thread::_M_start_thread\(', start), (r'^std::thread::join\(\)', join), (r'^std::thread::detach\(\)', detach),
           (r'^std::thread::_State::~_State\(\)', nothing), (r'^pthread_once$', once), (r'^std::__atomic_futex_unsigned<.*>::_M_load_(?:when|and_test)', futex_wait), (r'^std::__atomic_futex_unsigned<.*>::_M_store_notify_all', futex_store),
           (r'^std::basic_fstream<.*>::basic_fstream\(char const\*', ctor), (r'^std::basic_fstream<.*>::basic_fstream\(std::', ctor), (r'^std::basic_fstream<.*>::~basic_fstream', dtor),
           (r'^operator<<\(std::.*Rec', put), (r'^operator>>\(std::.*Rec', get), (IOS + r'operator bool\(\)', state('ok')), (IOS + r'operator!\(\)', state('fail')), (IOS + r'eof\(\)', state('eof')),
           (IOS + r'good\(\)', state('good')), (IOS + r'fail\(\)|' + IOS + r'bad\(\)', state('fail')), (IOS + r'is_open\(\)', state('open')), (IOS + r'(?:flush|close|sync)\(\)', lambda g, st, a, rt, n: (a[0] if rt.k == 'ptr' else nothing(g, st, a, rt, n))),
           (r'^std::__future_base::_Result_base::_Result_base\(\)', result), (r'^std::__future_base::_Result_base::~_Result_base\(\)|^std::__exception_ptr::exception_ptr::_M_(?:addref|release)', nothing),
           (r'^ev_task$', ev_task), (r'^ev_step$', ev_step)]

    def go(fn, fixed, policy, recs=0, rng=None):
        S = Sched(policy, rng); S.recs = abs(recs); S.broken = recs < 0; cur[0] = S

        def args(g, st, i, o):
            S.g = g; S.st = st
            if '__libc_single_threaded' in m.globals_src:
                ob = g.glob('__libc_single_threaded', st); g.store(st, ob if isinstance(ob, P) else P(ob, 0), 0, 1)
            l0, s0, mc0 = g.load_cell, g.store, g.memcpy
            load0[0] = g.store

            def hook(p, off, w):
                n = g.callstack[-1] if g.callstack else ''
                if p.kind == 'input' or p.name.startswith('out') or p.kind == 'global': return
                if ATOM.search(g.dem.get(n, n)):
                    S.sync((p, off))
                    if w: S.time += 1; S.writes.append(((p, off), S.cur, tuple(S.me()['held']), g.rloc(), S.time))
                    else: S.me()['reads'].add((p, off))
                    return
                S.access((p, off), w, (g.rloc(), g.dem.get(n, n)[:60]))

            def load_cell(st, o, off, size, t=None):
                hook(o, off, False); return l0(st, o, off, size, t)

            def store(st, p, v, size):
                if isinstance(p, P) and isinstance(p.off, int): hook(p.obj, vg.sgn(p.off, 64), True)
                return s0(st, p, v, size)
            g.load_cell = load_cell; g.store = store
            c0 = g.call_fn

            def call_fn(name, a, st, depth=0):
                # an operation on a container counts as one access of the whole container
                d = g.dem.get(name, name)
                if a and isinstance(a[0], P) and isinstance(a[0].off, int):
                    q = BOX.search(name); up = g.callstack[-1] if g.callstack else ''
                    if q and not STD.match(up):
                        me_ = re.search(r'::(~?\w+)(?:<.*>)?\([^()]*\)(?: const)?$', d)
                        S.access((a[0].obj, ('container', a[0].off)), not (q.group(1) or (me_ and me_.group(1) in PEEK)), g.rloc())
                return c0(name, a, st, depth)
            g.call_fn = call_fn
            return [P(i, 0), P(o, 0)]
        try: R = c.run(m, fn, 512, fixed, intercepts=icp, args=args, max_steps=300000)
        finally: S.end()
        R.S = S
        return R

    def judge(R, what, at):
        """what holds whatever is asked of the object"""
        S = R.S; at = ', with ' + at
        for b, l in S.bad: c.violation('locks', what, b + at, l)
        c.decided('locks')
        if S.bad: return False
        if S.fail == 'hang':
            c.violation('ends', what, 'every thread waits for ever (%s)%s' % ('; '.join('thread %d: %s' % (i, w) for i, w, l in S.waits), at), next((l for i, w, l in S.waits if l), None)); return False
        if S.dead or R.dead:
            c.violation('ends', what, 'it ends in a failure exit (%s)%s' % (S.dead or [x[1] for x in R.st.aborts][:2], at)); return False
        und = [u for u in R.g.undef_reads if u[0] and '/multi-thread/' in str(u[0])]
        for u in und[:1]: c.violation('initialised', what, '%s is read before it is set%s' % (u[1], at), u[0])
        seen = set()
        for k, l1, l2 in S.races:
            loc = l2[0] if isinstance(l2, tuple) and len(l2) == 2 and isinstance(l2[1], str) else l2
            if loc in seen: continue
            seen.add(loc); c.violation('race', what, '%s is accessed by two threads and nothing orders them (%s and %s)%s' % (getattr(k[0], 'name', k[0]), l1, l2, at), loc)
        c.decided('race')
        lost = set()
        for (x, mu), ids in S.preds.items():
            for key, w, held, loc, t in S.by.get(x, ()):
                if mu in held: continue
                for i in ids:
                    if i == w: continue
                    T_ = S.th[i]
                    if t > T_['born'] and (T_['done'] is None or t < T_['done']): lost.add(loc[0] if isinstance(loc, tuple) and len(loc) == 2 and isinstance(loc[1], str) else loc)
        for l in sorted(lost, key=str)[:2]: c.violation('wake-up', what, 'what a waiting thread tests is changed without the mutex it waits with, so that its notification can be missed%s' % at, l)
        c.decided('wake-up')
        if seen or und or lost: return False
        if R.und and R.und.startswith('budget'):
            c.violation('ends', what, 'a thread goes on for ever' + at, S.last); return False
        if R.und and 'undefined value' in R.und:
            c.violation('initialised', what, 'something is served that was never put in, or a flag is tested that was never set (%s)%s' % (R.und[:200], at), S.last); return False
        if not c.usable(R, 'complete', what + at): return False
        held = [k for k, v in S.mutex.items() if v is not None]
        c.true('locks', what, not held and not S.unlocked_end, 'a mutex is still held at the end' + at)
        c.true('joined', what, all(t['joined'] for t in S.th[1:]), 'a thread is left running' + at)
        return True

    def case(fn, what, fixed, policy, at, recs=0, seed=None):
        R = go(fn, fixed, policy, recs, random.Random(seed) if seed is not None else None)
        S = R.S; S.by = {}
        for w in S.writes: S.by.setdefault(w[0], []).append(w)
        at = '%s, order "%s"' % (at, policy)
        return R, at, judge(R, what, at)
    sym = lambda k: mk('in', 'in[%d]' % (10 + k), 'i64')
    same = lambda x, y: x is y or x == y

    def pool(fn, nt, cap, n, policy, seed=None):
        what = dict(pool_get='tasks with results', pool_each='tasks waited for one by one', pool_quit='pool left at once', pool_void='tasks without results')[fn]
        R, at, ok = case(fn, what, {0: nt, 1: cap, 2: n}, policy, '%d workers and %d tasks' % (nt, n), seed=seed)
        S = R.S
        for t, held, a, b, l in S.tasks:
            if held: c.violation('free', what, 'a task runs while its worker holds the lock of the pool, with ' + at, l); break
        c.decided('free')
        if not ok: return
        tags = [t[2] for t in S.tasks]
        c.true('once', what, len(set(tags)) == len(tags) and all(same(t[3], sym(t[2])) for t in S.tasks), 'tasks %s are run, with %s' % (tags, at))
        if fn != 'pool_quit': c.true('all', what, sorted(tags) == list(range(n)), 'tasks %s are run of %d, with %s' % (tags, n, at))
        if nt == 1: c.true('order', what, tags == sorted(tags), 'tasks are run in the order %s, with %s' % (tags, at))
        if fn in ('pool_get', 'pool_each'):
            for k in range(n): c.true('result', what, same(c.outi(R, k), sym(k)), 'the future of task %d gives %s, with %s' % (k, c.outi(R, k), at))

    def pair(nt, policy, seed=None):
        what = 'tasks that wait for one another'
        R, at, ok = case('pool_pair', what, {0: nt, 1: 1000, 2: 2}, policy, '%d workers' % nt, seed=seed)
        if not ok: return
        c.true('all', what, sorted(t[2] for t in R.S.tasks) == [0, 1], 'tasks %s are run, with %s' % ([t[2] for t in R.S.tasks], at))
        for k in (0, 1): c.true('result', what, same(c.outi(R, k), sym(1)), 'the future of task %d gives %s, with %s' % (k, c.outi(R, k), at))

    def fill(cap, n):
        what = 'bounded queue'; R = go('pool_fill', {0: 0, 1: cap, 2: n}, 'stay')
        if n == cap + 1: return     # whether the capacity includes the task being added is left open
        if n <= cap:
            R.S.by = {}
            if judge(R, what, 'a capacity of %d and %d tasks' % (cap, n)): c.true('accepts', what, R.S.steps == list(range(n)), 'tasks %s are accepted' % R.S.steps)
        else:
            c.true('refuses', what, R.dead and len(R.S.steps) <= cap + 1, '%d tasks are accepted by a queue of capacity %d' % (len(R.S.steps), cap))

    def out(fn, n, policy, seed=None):
        what = dict(opip='output pipe', costream='output stream', opip_idle='output pipe with a resting caller')[fn]
        R, at, ok = case(fn, what, {2: n}, policy, '%d records' % n, seed=seed)
        if not ok: return
        w = R.S.io
        c.true('written', what, len(w) == n and all(same(x[0], sym(k)) for k, x in enumerate(w)), '%d records are written, with %s' % (len(w), at))
        c.true('promptly', what, R.S.idle == list(range(1, n + 1)) or fn != 'opip_idle', 'after each push and a rest of the caller %s records are written, with %s' % (R.S.idle, at))
        c.true('open', what, all(x[1] for x in w), 'records are written to a closed file, with ' + at)

    def inp(fn, recs, n, policy, seed=None):
        what = dict(ipip='input pipe', cistream='input stream')[fn]
        R, at, ok = case(fn, what, {2: n}, policy, '%d records%s in the file and %d reads' % (abs(recs), ' and unreadable data' if recs < 0 else '', n), recs, seed=seed)
        if not ok: return
        recs = abs(recs)
        for k in range(n):
            r, v = c.outi(R, 2 * k), c.outi(R, 2 * k + 1)
            if k < recs: c.true('read', what, r == 1 and same(v, mk('in', 'record[%d]' % k, 'i64')), 'read %d gives %s (told %s), with %s' % (k, v, r, at))
            else: c.true('end', what, r == 0 and v == 2**64 - 1, 'read %d of %d records gives %s (told %s), with %s' % (k, recs, v, r, at))

    def passing(pop, nc, n, push, policy, seed=None):
        what = 'queue shared by threads'
        R, at, ok = case('deque_pass', what, {0: pop, 1: nc, 2: n, 3: push}, policy, '%d consumers at the %s of %d records pushed at the %s' % (nc, ('front', 'back')[pop], n, ('back', 'front')[push]), seed=seed)
        if not ok: return
        got = [t[3] for t in R.S.tasks]
        c.true('once', what, len(got) == n and all(t[2] == 1 for t in R.S.tasks) and all(sum(1 for x in got if same(x, sym(k))) == 1 for k in range(n)), 'the consumers get %d records, with %s' % (len(got), at))
        if nc == 1 and pop == push: c.true('order', what, all(same(x, sym(k)) for k, x in enumerate(got)), 'the records arrive out of order, with ' + at)
        c.true('all', what, c.outi(R, 0) == 1, 'the queue is not empty at the end, with ' + at)

    def peek(n, policy, seed=None):
        what = 'queue asked whether it is empty'
        R, at, ok = case('deque_peek', what, {2: n}, policy, '%d records' % n, seed=seed)
        if ok: c.true('empty', what, c.outi(R, 0) == 0, 'it is said to be empty, with ' + at)

    def stopped(pop, nc, policy, seed=None):
        what = 'stopped queue'
        R, at, ok = case('deque_stop', what, {0: pop, 1: nc}, policy, '%d waiting consumers' % nc, seed=seed)
        if not ok: return
        c.true('told', what, len(R.S.tasks) == nc and all(t[2] == 0 and t[3] == 2**64 - 1 for t in R.S.tasks), 'a pop of an empty queue that is stopped gives a record, with ' + at)

    def ops(seq):
        what = 'queue in one thread'
        R, at, ok = case('deque_ops', what, {2: len(seq), **{100 + k: o for k, o in enumerate(seq)}}, 'stay', 'operations %s' % ''.join('bfFBe'[o] for o in seq))
        if not ok: return
        d = []
        for k, o in enumerate(seq):
            if o == 0: d.append(sym(k))
            elif o == 1: d.insert(0, sym(k))
            elif o == 4: c.true('empty', what, c.outi(R, k) == int(not d), 'empty() is %s with %d records, with %s' % (c.outi(R, k), len(d), at))
            else:
                x = d.pop(0 if o == 2 else -1)
                c.true('order', what, same(c.outi(R, k), x), 'operation %d pops another record than a deque, with %s' % (k, at))

    def one(j): globals_[j[0]](*j[1:])
    globals_ = dict(pair=pair, pool=pool, fill=fill, out=out, inp=inp, passing=passing, stopped=stopped, peek=peek, ops=ops)
    jobs = []
    sched = [(p, None) for p in POL] + [('random %d' % k, 1000 * c.seed + k) for k in range(12 if c.thorough else 3)]
    for p, s in sched:
        for fn in ('pool_get', 'pool_each', 'pool_quit', 'pool_void'):
            for nt, n in [(1, 0), (1, 1), (1, 3), (2, 0), (2, 3), (3, 2)] + ([(1, 6), (3, 5), (4, 8)] if c.thorough else []): jobs.append(('pool', fn, nt, 1000, n, p, s))
        for fn in ('opip', 'opip_idle', 'costream'):
            for n in (0, 1, 2, 5): jobs.append(('out', fn, n, p, s))
        for fn in ('ipip', 'cistream'):
            for r, n in ((0, 1), (0, 0), (1, 0), (1, 1), (1, 3), (3, 2), (3, 5), (-2, 2), (-2, 4), (150, 2)): jobs.append(('inp', fn, r, n, p, s))
        for nt in (2, 3): jobs.append(('pair', nt, p, s))
        for n in (1, 3): jobs.append(('peek', n, p, s))
        for pop in (0, 1):
            for push in (0, 1):
                for nc, n in ((1, 1), (1, 4), (2, 4), (3, 3)): jobs.append(('passing', pop, nc, n, push, p, s))
            for nc in (1, 2, 3): jobs.append(('stopped', pop, nc, p, s))
    for r, n in ((100, 102), (101, 103), (205, 207)): jobs.append(('inp', 'ipip', r, n, 'turns', None)); jobs.append(('inp', 'ipip', r, n, 'stay', None))
    for cap in (0, 1, 3):
        for n in (cap, cap + 2, cap + 5): jobs.append(('fill', cap, n))
    rng = random.Random(c.seed)
    for _ in range(60 if c.thorough else 25):
        q = 0; sq = []
        for _ in range(rng.randrange(1, 12)):
            o = rng.choice([0, 1, 4, 2, 3] if q else [0, 1, 4]); q += (o < 2) - (o in (2, 3)); sq.append(o)
        jobs.append(('ops', tuple(sq)))
    c.parallel(jobs, one)
    return c.finish()
