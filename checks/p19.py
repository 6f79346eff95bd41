from hx import *
from streams import *
F = Fraction


def ref(h):
    """events of the run protocol for a history; checks are left out (they are judged separately)"""
    ev = []; k = 0; t = h['t0']
    for run in range(h['runs']):
        step = h['step'] if run == 0 else h['step2']
        end = (h['end'] if run == 0 else h['end2']) if h['endset'] else F(10)**6
        for i in range(h['ns']): ev.append(('start', i, k, t, step, ('w', 24 + i)))
        n = 0
        while not (h['endset'] and abs((t - end) / end) <= h['tol']):
            n += 1
            if any(h['dec'][c][k] for c in range(h['nc'])) or (h['count'] and n >= h['count']): break
            rest = (end - t) * h['scale'][k]
            if abs(step) > abs(rest): step = rest
            elif h['endset'] and step * rest < 0: step = -step
            for i in range(h['no']): ev.append(('op', i, k, t, step, ('w', 16 + i)))
            ev.append(('pre', k)); ev.append(('iter', k, step)); ev.append(('post', k + 1))
            t += h['adv'][k]; step = h['next'][k]; k += 1
        for i in range(h['no']): ev.append(('op', i, k, t, step, ('w', 16 + i)))
        for i in range(h['nst']): ev.append(('stop', i, k, t, step, ('w', 20 + i)))
        ev.append(('end',))
    return ev, t


def num(x):
    if isinstance(x, E): x = x.t
    if vg.isfc(x): return x.args[0]
    if isinstance(x, int): return F(x)
    return x


def run():
    c = Check('P19', 'Run protocol', 'event trace of the run loop (stub system, iterator and callbacks, every call recorded) against the protocol, for every control history up to a length: '
              'constant propagation of the decisions and times, callback arguments and tolerances symbolic', min_obl=5000)
    m = c.compile('run.cpp')
    H = []
    L = 40

    def hist(**kw):
        h = dict(t0=F(0), step=F(1, 10), step2=F(1, 10), end=F(1), end2=F(2), endset=1, tol=F(1, 10**8), no=1, nst=1, ns=1, nc=1, runs=1, count=0,
                 dec=[[0] * L for _ in range(4)], scale=[F(1)] * L, adv=[F(1, 10)] * L, next=[F(1, 10)] * L)
        h.update(kw); H.append(h)

    rg = random.Random(7 + c.seed)
    # exact stepping to the end, clipped last steps, immediate end, several numbers of callbacks
    for no in range(0, 4):
        for nst in (0, 1, 3):
            for ns in (0, 1, 2): hist(no=no, nst=nst, ns=ns, nc=rg.choice([0, 1, 2]), end=F(3, 10))
    for st in (F(1, 10), F(1, 4), F(5), F(3, 7)):
        for nx in (F(1, 10), F(1, 3), F(7)):
            for sc in (F(1), F(2), F(1, 5)):
                # a faithful iterator: the time advances by the step over the scale
                t = F(0); h = st; adv = []
                while t != 1 and len(adv) < 30:
                    r = (1 - t) * sc
                    s = r if h > r else h
                    adv.append(s / sc); t += s / sc; h = nx
                hist(step=st, next=[nx] * L, adv=adv + [F(0)] * (L - len(adv)), scale=[sc] * L, end=F(1))
    # stop conditions by state and by order
    for nc in (1, 2, 3):
        for cc in range(nc):
            for k in (0, 1, 2, 4):
                d = [[0] * L for _ in range(4)]
                for q in range(k, L): d[cc][q] = 1
                hist(nc=nc, dec=d); hist(nc=nc, dec=d, endset=0); hist(nc=nc, dec=d, no=2, nst=2)
    for cnt in (1, 2, 3, 5): hist(count=cnt, nc=0); hist(count=cnt, nc=1, endset=0)
    # end already reached, within and outside the time tolerance
    hist(t0=F(1)); hist(t0=1 - F(1, 10**9)); hist(t0=1 + F(1, 10**9)); hist(t0=1 - F(1, 10**3), tol=F(1, 100)); hist(t0=1 - F(3, 100), tol=F(1, 100), adv=[F(3, 100)] + [F(0)] * (L - 1))
    # steps that overshoot (time transformed systems) and must come back, backward runs
    hist(adv=[F(1, 2), F(3, 5), F(-1, 10)] + [F(0)] * (L - 3), step=F(2, 5), next=[F(6, 10), F(-1, 2), F(-1, 2)] + [F(1)] * (L - 3))
    hist(adv=[F(1, 2), F(3, 5), F(-1, 5), F(1, 10)] + [F(0)] * (L - 4), step=F(2, 5), next=[F(6, 10), F(-1, 2), F(-1, 20), F(1)] + [F(1)] * (L - 4))
    hist(t0=F(2), end=F(1), step=F(-1, 4), adv=[F(-1, 4)] * L, next=[F(-1, 4)] * L)
    hist(t0=F(2), end=F(1), step=F(1, 4), adv=[F(-1, 4)] * L, next=[F(1, 4)] * L)
    hist(t0=F(-2), end=F(-1), step=F(1, 4), adv=[F(1, 4)] * L, next=[F(1, 4)] * L)
    hist(endset=0, step=F(-1, 4), adv=[F(-1, 4)] * L, next=[F(-1, 4)] * L, count=4)
    # the iterator shrinks and grows the step
    for s in range(40 if c.thorough else 12):
        nx = [F(rg.randint(1, 60), 100) for _ in range(L)]; sc = [F(rg.randint(1, 9), rg.randint(1, 9)) for _ in range(L)]
        t = F(0); h = F(rg.randint(1, 40), 100); adv = []; st = h
        while t != 1 and len(adv) < 35:
            r = (1 - t) * sc[len(adv)]; q = r if h > r else h
            frac = rg.choice([F(1), F(1), F(1, 2)]) if q < r else F(1)
            adv.append(q * frac / sc[len(adv)]); t += adv[-1]; h = nx[len(adv) - 1]
        if t != 1: continue
        d = [[0] * L for _ in range(4)]
        if s % 3 == 0:
            for q in range(rg.randint(0, len(adv)), L): d[s % 2][q] = 1
        hist(step=st, next=nx, scale=sc, adv=adv + [F(0)] * (L - len(adv)), nc=2, dec=d, no=2)
    # a second run continues from the state of the first
    for st2 in (F(1, 10), F(1, 3)): hist(runs=2, step2=st2, end=F(3, 10), end2=F(6, 10), adv=[F(1, 10)] * 3 + [F(3, 10)] + [F(0)] * (L - 4) if st2 > F(1, 10) * 3 else [F(1, 10)] * L)
    jobs = [(i, tolit) for i in range(len(H)) for tolit in ((1, 0) if i % 6 == 0 else (1,))]

    def job(j):
        i, tolit = j
        h = H[i]
        f = {0: h['t0'], 1: h['step'], 2: h['end'], 3: F(h['endset']), 4: h['tol'], 7: F(h['no']), 8: F(h['nst']), 9: F(h['ns']), 10: F(h['nc']), 11: F(h['runs']), 12: F(h['count']), 13: h['end2'], 14: h['step2']}
        for k in range(L):
            f[40 + k] = h['scale'][k]; f[80 + k] = h['adv'][k]; f[120 + k] = h['next'][k]
            for q in range(4): f[160 + 40 * q + k] = F(h['dec'][q][k])
        nm = 'history %d (start %s, end %s, step %s, %d operations, %d stop operations, %d start operations, %d conditions)' % (i, h['t0'], h['end'] if h['endset'] else 'none', h['step'], h['no'], h['nst'], h['ns'], h['nc'])
        R = c.run(m, 'runtol' if tolit else 'runplain', 8, f, intercepts=streams([]))
        if not c.usable(R, 'run', nm): return
        want, tend = ref(h)
        log = [(n[3:], *map(num, a)) for n, a, *_ in R.st.ev]
        got = [e for e in log if e[0] not in ('check', 'count')]
        first = next((q for q in range(max(len(got), len(want))) if q >= len(got) or q >= len(want) or got[q][0] != want[q][0] or any(isinstance(b, (int, F)) and a != b for a, b in zip(got[q][1:], want[q][1:]))), None)
        def sh(e): return '%s(%s)' % (e[0], ', '.join(str(x)[:40] for x in e[1:]))
        loc = None
        ok = c.true('protocol', nm + ': events', first is None, first is not None and 'event %d is %s, the protocol asks for %s; before it: %s' % (
            first, sh(got[first]) if first < len(got) else 'missing', sh(want[first]) if first < len(want) else 'nothing', ' '.join(sh(e) for e in got[max(0, first - 4):first])), 'src/simulator.hpp')
        c.decided('protocol', len(want) - 1)
        if not ok: return
        for a, b in zip(got, want):
            if b[0] in ('op', 'stop', 'start'):
                c.eq('callback argument', '%s: bound argument of %s %d' % (nm, b[0], b[1]), a[5] if isinstance(a[5], T) else E(a[5]).t, inp('in[%d]' % b[5][1]))
            if b[0] == 'iter':
                c.eq('tolerance', nm + ': absolute tolerance at a step', a[3] if isinstance(a[3], T) else E(a[3]).t, inp('in[5]') if tolit else E(-1))
                c.eq('tolerance', nm + ': relative tolerance at a step', a[4] if isinstance(a[4], T) else E(a[4]).t, inp('in[6]') if tolit else E(-1))
        # every condition is evaluated once with the current state before each step, no step follows a true one
        cur = []; n = 0
        for e in log:
            if e[0] in ('check', 'count'): cur.append(e)
            if e[0] == 'pre':
                k = e[1]
                ch = [x for x in cur if x[0] == 'check']
                c.true('stop conditions', '%s: every condition is evaluated once, in order, on the current state before step %s' % (nm, k), [x[1] for x in ch] == list(range(h['nc'])) and all(x[2] == k for x in ch)
                       and len([x for x in cur if x[0] == 'count']) == (1 if h['count'] else 0), 'evaluations: %s' % ' '.join(sh(x) for x in cur), 'src/simulator.hpp')
                for x in ch: c.eq('callback argument', '%s: bound argument of condition %d' % (nm, x[1]), x[5] if isinstance(x[5], T) else E(x[5]).t, inp('in[%d]' % (28 + int(x[1]))))
                cur = []
            if e[0] == 'iter': cur = []
        c.eq('initial state', nm + ': start time of the system', c.out(R, 1), E(h['t0'])); c.eq('initial state', nm + ': particles handed to the system', c.out(R, 0), E(3))
        c.eq('initial state', nm + ': end time is set', c.out(R, 2), E(h['endset'])); c.eq('initial state', nm + ': a stop condition is set', c.out(R, 3), E(1 if h['nc'] or h['count'] else 0))
        c.eq('final state', nm + ': time after the run', c.out(R, 4), E(tend))
    c.parallel(jobs, job)
    # a run without any stop condition is refused
    h = dict(H[0]); f = {0: F(0), 1: F(1, 10), 2: F(1), 3: F(0), 4: F(1, 10), 7: F(1), 8: F(0), 9: F(0), 10: F(0), 11: F(1), 12: F(0), 13: F(1), 14: F(1)}
    for k in range(L): f[40 + k] = f[80 + k] = f[120 + k] = F(1)
    R = c.run(m, 'runtol', 8, f, intercepts=streams([]))
    if R.und: c.undecided('run', 'run without a stop condition: %s' % R.und)
    else: c.true('run', 'a run without end time and stop condition is refused', R.dead, 'the run goes ahead')
    return c.finish()
