from hx import *
SEQ = [1, 2, 3, 5, 8, 12, 17, 25, 36, 51, 73]
BIG = Fraction(10**15); SLOW = Fraction(3, 2); OK = Fraction(1, 2)
NATT = 12


def kinds():
    out = [('a', k) for k in range(1, 8)] + [('s', 0)] + [('d', k) for k in (1, 3, 5, 6)]
    return out


TR = {'up': lambda k: Fraction(3**k, 2700), 'down': lambda k: Fraction(7, 10), 'flat': lambda k: Fraction(SEQ_COST[k], 150),
      'peak4': lambda k: Fraction(9, 10) if k == 4 else Fraction(1, 20), 'peak2': lambda k: Fraction(4, 5) if k == 2 else Fraction(1, 50)}
SEQ_COST = [sum(SEQ[:i + 1]) for i in range(11)]


def rows(hist):
    """fixed inputs of a history: attempts of (kind, trend); afterwards everything is accepted"""
    f = {}
    for a in range(NATT):
        (kd, k), tr = hist[a] if a < len(hist) else (('a', 1), 'flat')
        for c in range(8):
            e = OK if kd == 'a' and c >= k else BIG if kd == 'd' and c >= k else SLOW
            f[32 + 16 * a + c] = e; f[32 + 16 * a + 8 + c] = TR[tr](c)
    return f


def merge(ops):
    out = []
    for k, h in ops:
        if h == 0: continue
        if out and out[-1][0] == k: out[-1] = (k, out[-1][1] + h)
        else: out.append((k, h))
    return [x for x in out if x[1] != 0]


def num(t):
    if vg.isfc(t): return t.args[0]
    if isinstance(t, int): return Fraction(t)
    return None


def run():
    c = Check('P08', 'Bulirsch-Stoer', 'extrapolation algebra by value numbers; every control history of attempts (error per column, proposed ratio per column) up to a length by constant propagation, with the state and '
              'increments symbolic: sub-runs, start states, tested pair, committed state, returned step, order range', min_obl=2000)
    m, m3 = c.compile_many([(('bs.cpp',), {}), (('bs.cpp',), dict(defs=('SHV_NV=3',)))])
    # ---- tables
    for M, fn in ((8, 'tab8'), (17, 'tab17'), (33, 'tab33')):
        R = c.run(m, fn, 200)
        if not c.usable(R, 'tables', fn): continue
        h = SEQ[:M] if M <= 11 else list(range(1, M + 1))
        for kdk in (0, 1):
            cost = 0
            for i in range(M):
                cost += h[i] + 2 * kdk
                c.eq('tables', 'depth %d %s sub-steps of column %d' % (M, 'KDK' if kdk else 'DKD', i), c.out(R, 2 * (M * kdk + i)), E(h[i]))
                c.eq('tables', 'depth %d %s accumulated work of column %d' % (M, 'KDK' if kdk else 'DKD', i), c.out(R, 2 * (M * kdk + i) + 1), E(cost))
    for M, fn in ((8, 'coef8'), (17, 'coef17')):
        R = c.run(m, fn, 200)
        if not c.usable(R, 'tables', fn): continue
        h = SEQ[:M] if M <= 11 else list(range(1, M + 1)); q = 0
        for i in range(M):
            for j in range(i):
                c.eq('tables', 'depth %d extrapolation coefficient (%d,%d)' % (M, i, j), c.out(R, q), E(Fraction(h[i - j - 1]**2, h[i]**2 - h[i - j - 1]**2)), tol=mpf(10)**-13); q += 1

    # ---- histories
    T3 = ['up', 'down', 'flat']
    H = []
    first = [('a', k) for k in range(1, 8)] + [('s', 0), ('d', 2)]
    for a in first:
        for t in (('up', 'down', 'peak4') if not c.thorough else list(TR)): H.append([(a, t)])
    for a in ((('a', 7), 'up'), (('a', 5), 'down'), (('a', 3), 'flat'), (('a', 1), 'up')):
        for b in kinds():
            for t in (('up', 'down', 'peak2') if not c.thorough else list(TR)): H.append([a, (b, t)])
    # long drifts of the order up and down, and rejections in the middle of them
    for t in TR:
        for k in (1, 2, 4, 7):
            H.append([(('a', 7), t)] + [(('a', k), t)] * 6)
            H.append([(('a', k), t)] * 3 + [(('d', 1), t), (('a', k), t), (('s', 0), t), (('a', k), t)])
    ks = kinds()
    for _ in range(400 if c.thorough else 60):
        n = c.rng.randint(3, 8)
        H.append([(c.rng.choice(ks), c.rng.choice(list(TR))) for _ in range(n)])

    def job(hs):
        for nv, kind, hist in hs: one(nv, kind, hist)

    def one(nv, kind, hist):
        f = rows(hist); f[20] = Fraction(3, 4); f[21] = steps = max(1, len(hist) - sum(1 for x in hist if x[0][0] != 'a')) + 1
        nm = '%s %s' % (kind, ' '.join('%s%s-%s' % (k[0], k[1] or '', t) for k, t in hist))
        R = c.run(m if nv == 1 else m3, kind, 200, f)
        if not c.usable(R, 'history', nm): return
        walk(c, R, nm, kind, nv, Fraction(3, 4), steps)

    jobs = [(1, 'dkd', h) for h in H] + [(3, 'kdk', h) for h in H[::7]] + [(1, 'kdk', h) for h in H[1::4]]
    c.parallel([jobs[i::32] for i in range(32)], job)

    # ---- the budget ends in a failure exit, and never repeats itself before
    f = {20: Fraction(3, 4), 21: 1}
    for a in range(NATT):
        for k in range(8): f[32 + 16 * a + k] = SLOW; f[32 + 16 * a + 8 + k] = Fraction(9, 10)
    R = c.run(m, 'dkd', 40, f)
    if R.und: c.undecided('budget', R.und)
    else: c.true('budget', 'attempts that always fail end in a failure exit', R.dead, 'iterate returns although no attempt was accepted')

    # ---- plain function
    for first, h in ((1, 'one'), (6, 'six'), (0, 'reject')):
        f = {20: Fraction(3, 4), 21: 2}
        for k in range(60): f[32 + k] = OK; f[400 + k] = Fraction(9, 10)
        if first == 6:
            for k in range(5): f[32 + k] = SLOW
        if first == 0:
            for k in range(7): f[32 + k] = SLOW
        R = c.run(m, 'func', 40, f)
        if not c.usable(R, 'function', 'plain function, %s' % h): continue
        fwalk(c, R, 'plain function, %s' % h)
    return c.finish()


def extrap(ns, cols, k, m):
    """polynomial through columns k-m..k in 1/n^2, at zero"""
    js = range(k - m, k + 1); out = E(0)
    for j in js:
        w = Fraction(1)
        for i in js:
            if i != j: w *= Fraction(ns[j]**2, ns[j]**2 - ns[i]**2)
        out = out + cols[j] * w
    return out


def walk(c, R, nm, kind, nv, h0, steps):
    d, k_ = ('drift', 'kick')
    ev = [(x[0][3:], x[1], x[2]) for x in R.st.ev if x[0].startswith('ev_')]
    # sub-runs and what is said between them
    subs = []; cur = None; pend = []
    i = 0
    while i < len(ev):
        n, a, loc = ev[i]
        if n == 'start':
            ys = [ev[i + q][1][0] for q in range(nv)]
            cur = dict(y=ys, ops=[], after=[], loc=loc); subs.append(cur)
            # state components are announced together
            if any(ev[i + q][0] != 'start' for q in range(nv)): c.undecided('history', nm + ': start events'); return
            i += nv; continue
        if n in (d, k_):
            h = num(a[0])
            if h is None or cur is None: c.undecided('history', nm + ': step of a sub-run is not constant'); return
            cur['ops'].append((n, h))
        elif cur is None: c.undecided('history', nm + ': event before the first sub-run'); return
        else: cur['after'].append((n, a, loc))
        i += 1
    if not c.true('history', nm + ' has sub-runs', len(subs) > 1, 'no sub-run found'): return
    lead = d if kind == 'dkd' else k_
    for q, s in enumerate(subs):
        o = merge(s['ops']); s['n'] = n = sum(1 for k, _ in o if k != lead); s['h'] = H = sum((h for k, h in o if k == lead), Fraction(0))
        want = [(lead, H / (2 * n))] if n else []
        oth = k_ if lead == d else d
        for t in range(n): want += [(oth, H / n), (lead, H / n if t < n - 1 else H / (2 * n))]
        ok = len(o) == len(want) and all(x[0] == y[0] and abs(x[1] - y[1]) < Fraction(1, 10**12) for x, y in zip(o, want))
        if not c.true('sub-run', '%s sub-run %d is the leapfrog of its number of steps' % (nm, q), ok, '%s' % [(k, str(float(h))) for k, h in o][:8], s['loc']): return
        s['inc'] = [inp('in[%d]' % (1000 + q * nv + i)) for i in range(nv)]
    # attempts
    att = []
    for s in subs:
        if not att or s['n'] == subs[0]['n']: att.append([])
        att[-1].append(s)
    ns = SEQ[:8]
    y0 = [inp('in[%d]' % i) for i in range(nv)]
    h = h0; step = 0; envs = []
    eq = lambda kd, what, a, b: c.eq(kd, nm + ' -> ' + what, a, b, envs=envs, tol=mpf(10)**-9, scale=mpf(1))
    prev = None
    for ai, A in enumerate(att):
        if step >= steps: c.true('history', nm + ' attempts after the last step', False, '', A[0]['loc']); return
        if not c.true('order', '%s attempt %d stays inside the tables' % (nm, ai), len(A) <= 8, '%d columns, the tables hold 8' % len(A), A[-1]['loc']): return
        got = [s['n'] for s in A]
        if not c.true('sequence', '%s attempt %d columns' % (nm, ai), got == ns[:len(got)] and len(got) > 1, 'sub-steps %s, expected the start of %s' % (got, ns), A[-1]['loc']): return
        Hs = A[0]['h']
        if not c.true('restart', '%s attempt %d step' % (nm, ai), all(abs(s['h'] - Hs) < Fraction(1, 10**12) for s in A) and abs(Hs - h) < Fraction(1, 10**12),
                      'columns use steps %s, expected %s' % ([float(s['h']) for s in A], float(h)), A[0]['loc']): return
        for s in A:
            for i in range(nv):
                if eq('restart', 'attempt %d column of %d steps starts from the unchanged state [%d]' % (ai, s['n'], i), s['y'][i], y0[i]) is False: return
        ratios = {}; err = {}; lims = []
        for k, s in enumerate(A):
            er = [x for x in s['after'] if x[0] == 'error']
            for g in range(0, len(er), nv):
                for i in range(nv):
                    a = er[g + i][1]
                    # which of the two compared results is the extrapolated one is a matter of convention: both orders are the same test
                    t1 = extrap(ns, [A[j]['inc'][i] for j in range(k + 1)], k, k - 1) if k else None
                    t0 = extrap(ns, [A[j]['inc'][i] for j in range(k + 1)], k, k)
                    if eq('error test', 'attempt %d column %d scale [%d]' % (ai, k, i), a[2], y0[i]) is False: return
                    if k and (eq('error test', 'attempt %d column %d lower-order result [%d]' % (ai, k, i), a[3], t1) is False or
                              eq('error test', 'attempt %d column %d extrapolated result [%d]' % (ai, k, i), a[4], t0) is False): return
            for n, a, loc in s['after']:
                if n == 'next':
                    if num(a[1]) is not None: err[k] = num(a[1])
                    if not c.true('controller', '%s attempt %d column %d order' % (nm, ai, k), num(a[0]) == 2 * k + 1, 'order %s, the result is of order %d' % (num(a[0]), 2 * k + 1), loc): return
                elif n == 'lim': lims.append((k, num(a[0]), num(a[1]), num(a[2]), loc))
        K = len(A) - 1
        row = min(ai, NATT - 1)
        F = R_rows(R)
        for k, e in err.items():
            if not c.true('controller', '%s attempt %d column %d error' % (nm, ai, k), e == F[32 + 16 * row + k], 'the controller is given error %s' % float(e), A[k]['loc']): return
        rat = [F[32 + 16 * row + 8 + k] for k in range(8)]
        cost = [sum(ns[:j + 1]) + (2 * (j + 1) if kind == 'kdk' else 0) for j in range(8)]
        okr = [rat[j] for j in range(1, K + 1)] + ([rat[K] * cost[K + 1] / cost[K]] if K < 7 else [])
        if not c.true('next step', '%s attempt %d asks for one limited ratio' % (nm, ai), len(lims) == 1, '%d calls of the limiter' % len(lims), A[-1]['loc']): return
        lk, lo, lr, lv, loc = lims[0]
        if not c.true('next step', '%s attempt %d ratio' % (nm, ai), lo == 2 * K + 1 and lr is not None and any(abs(lr - x) < Fraction(1, 10**12) * (1 + x) for x in okr),
                      'limiter(order %s, ratio %s), order %d and a ratio proposed in this attempt expected %s' % (lo, lr and float(lr), 2 * K + 1, [float(x) for x in okr]), loc): return
        # does the state move on?
        nxt = att[ai + 1] if ai + 1 < len(att) else None
        e = F[32 + 16 * row + K]
        h2 = Hs * lv
        if e <= 1:
            hd = c.out(R, step * (3 + nv)); on = num(c.out(R, step * (3 + nv) + 2))
            if eq('commit', 'step %d returns the step times the limited ratio' % step, hd, E(h2)) is False: return
            if not c.true('commit', '%s step %d ends the collection of increments' % (nm, step), on == 0, 'collection is still on', A[-1]['loc']): return
            for i in range(nv):
                y0[i] = y0[i] + extrap(ns, [A[j]['inc'][i] for j in range(K + 1)], K, K)
                if eq('commit', 'step %d committed state [%d]' % (step, i), c.out(R, step * (3 + nv) + 3 + i), y0[i]) is False: return
            step += 1
        else:
            if not c.true('retry', '%s attempt %d is retried with another step' % (nm, ai), nxt is not None and h2 != Hs, 'error %s, next step %s' % (float(e), float(h2)), A[-1]['loc']): return
        h = h2
    c.true('history', nm + ' all steps are taken', step == steps, '%d of %d steps are taken' % (step, steps))


def R_rows(R): return R.fixed


def fwalk(c, R, nm):
    ev = [(x[0][3:], x[1], x[2]) for x in R.st.ev if x[0].startswith('ev_')]
    subs = []; groups = [[]]
    for n, a, loc in ev:
        if n == 'func': groups[-1].append((a, loc))
        elif n == 'error': groups.append([])
    # the first group holds columns 0 and 1 of an attempt, the following ones a column each; column 0 has one step (two evaluations)
    y = inp('in[0]'); t = inp('in[1]'); h = Fraction(3, 4); step = 0; seq = 0; q = 0
    envs = []
    eq = lambda what, a, b: c.eq('function', nm + ' -> ' + what, a, b, envs=envs, scale=mpf(1))
    fi = 0; calls = [x for n, x, l in ev if n == 'func']; errs = [x for n, x, l in ev if n == 'error']; lims = [x for n, x, l in ev if n == 'lim']; li = 0; ei = 0
    while step < 2:
        cols = []
        for k in range(8):
            n = SEQ[k]; hh = h / n
            if fi + n + 1 > len(calls): c.true('function', nm + ' evaluations', False, 'too few evaluations'); return
            z0 = y; z1 = None
            d = lambda j: inp('in[%d]' % (1000 + j))
            if eq('step %d column %d time 0' % (step, k), calls[fi][0], t) is False or eq('step %d column %d state 0' % (step, k), calls[fi][1], y) is False: return
            z1 = z0 + d(fi) * hh; fi += 1
            for s in range(1, n):
                if eq('step %d column %d time %d' % (step, k, s), calls[fi][0], t + hh * s) is False or eq('step %d column %d state %d' % (step, k, s), calls[fi][1], z1) is False: return
                z0, z1 = z1, z0 + d(fi) * (2 * hh); fi += 1
            if eq('step %d column %d end time' % (step, k), calls[fi][0], t + h) is False or eq('step %d column %d end state' % (step, k), calls[fi][1], z1) is False: return
            cols.append((z0 + z1 + d(fi) * hh) / 2); fi += 1
            if k == 0: continue
            if ei >= len(errs): c.true('function', nm + ' error tests', False, 'no error test'); return
            eq('step %d column %d lower-order result' % (step, k), errs[ei][3], extrap(SEQ, cols, k, k - 1)); eq('step %d column %d extrapolated result' % (step, k), errs[ei][4], extrap(SEQ, cols, k, k))
            e = R.fixed[32 + ei]; ei += 1
            # the attempt ends where the limiter is consulted: read it off the order of events
            pos = [i for i, x in enumerate(ev) if x[0] == 'error'][ei - 1]
            end = False
            for x in ev[pos + 1:]:
                if x[0] in ('error', 'func'): break
                if x[0] == 'lim': end = True; lim = x[1]
            if end:
                hn = h * num(lim[2])
                if e <= 1:
                    y = extrap(SEQ, cols, k, k); t = t + h
                    if eq('step %d returned step' % step, c.out(R, 3 * step), E(hn)) is False or eq('step %d time' % step, c.out(R, 3 * step + 1), t) is False or eq('step %d state' % step, c.out(R, 3 * step + 2), y) is False: return
                    step += 1
                else: c.true('function', nm + ' retry changes the step', hn != h, 'same step')
                h = hn; break
        else: c.true('function', nm + ' attempt ends', False, 'all columns computed without a decision'); return
    c.true('function', nm + ' no further evaluation', fi == len(calls), '%d evaluations, %d expected' % (len(calls), fi))
