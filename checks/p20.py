from hx import *
F = Fraction


def xpow(g, st, a, rt, name):
    x, y = [v.args[0] if vg.isfc(v) else F(v) if isinstance(v, int) else None for v in a[:2]]
    if x is not None and y is not None:
        # the exponent 1/n is a rounded double: find n
        for n in range(1, 40):
            if y == F(1, n) or float(y) == 1 / n:
                for num in range(1, 60):
                    for den in (1, 2, 3, 4):
                        if F(num, den)**n == x: return vg.fc(F(num, den))
    raise Undecided('pow of %r' % (a,))


def run():
    c = Check('P20', 'Sliced callbacks', 'time slices by value numbers with all times and parameters free over consecutive calls; logarithmic and step slices by constant propagation over histories of calls; '
              'after a reset like freshly constructed', min_obl=3000)
    m = c.compile('slices.cpp')
    icp = [(r'^pow(l|f)?$|^(std|hub)::pow', xpow), (r'^llvm\.pow', xpow)]
    K = 4 if c.thorough else 3
    jobs = []
    for b in 'vb':
        for n in (1, 2, 3, 7):
            jobs.append(('time', b, n, 0))
            jobs += [('timer', b, n, j) for j in (0, 1, 2)]
        for n in range(1, 6):
            jobs.append(('step', b, n, 0)); jobs += [('stepr', b, n, j) for j in (0, 1, 2, 3)]
    rg = random.Random(11 + c.seed)
    TH = []
    for n in (1, 2, 5):
        for st, en in ((F(0), F(1)), (F(-3), F(2)), (F(1), F(7, 2))):
            dt = (en - st) / n
            TH += [(st, en, n, ts) for ts in ([st + k * dt for k in range(6)], [st, st, st + dt, st + dt, en, en], [st - dt, st, st + dt / 2, st + dt, en, en + dt], [st + 3 * dt, st + 3 * dt, en, en, en, en],
                                              sorted(st + dt * F(rg.randint(-2, 2 * n + 3), 2) for _ in range(6)))]
    jobs += [(k, b, i, j) for i in range(len(TH)) for b in 'vb' for k, j in (('timec', 0), ('timerc', i % 3))]
    LP = [(F(0), F(16), 4), (F(3), F(8), 3), (F(-1), F(81), 4), (F(2), F(4), 1), (F(0), F(256), 8), (F(-5), F(9, 4), 2)]
    LH = []
    for st, D, n in LP:
        for q in range(12 if c.thorough else 5):
            ts = sorted(st + D * F(rg.randint(0, 130), 100) * rg.choice([F(1), F(1, 4), F(1, 16)]) for _ in range(6))
            if q == 0: ts = [st + D * F(k, 5) for k in range(6)]
            if q == 1: r = next(F(a, b) for a in range(1, 60) for b in (1, 2) if F(a, b)**n == D); ts = sorted([st + r**k for k in range(1, 4)] + [st, st + D, st + D + 1])
            if q == 2: r = next(F(a, b) for a in range(1, 60) for b in (1, 2) if F(a, b)**n == D); ts = sorted([st + r**2, st + r**2 + F(1, 7), st + r**3, st + r**3 + F(1, 9), st + r**5, st + D])
            LH.append((st, D, n, ts))
    for i, h in enumerate(LH):
        for b in 'vb': jobs += [('log', b, i, 0)] + [('logr', b, i, j) for j in ((0, 2) if i % 2 else (1,))]

    def span(nm, typ, rng):
        """slices of a span that begins before it ends"""
        return pit.rnd(rng, -2, 0) if nm in ('in[0]', 'in[5]') else pit.rnd(rng, 0.3, 2.5) if nm in ('in[1]', 'in[6]') else None

    def judge(nm, R, kk, cond, h, dec, b, cnt, state):
        """call kk fires under cond"""
        g = lambda k: c.out(R, 8 * kk + k)
        cnt2 = cnt + where(cond, 1, 0)
        c.eq('firing', '%s: operations run after call %d' % (nm, kk), g(0), cnt2, n=30, gen=span)
        hh = where(cond, h, state[0]); tag = where(cond, E(100) + cnt, state[1])
        c.eq('arguments', '%s: step size passed by call %d' % (nm, kk), g(1), hh, n=30, gen=span)
        c.eq('arguments', '%s: particles passed by call %d' % (nm, kk), g(2), tag, n=30, gen=span)
        c.eq('arguments', '%s: the operation works on the caller\'s particles, call %d' % (nm, kk), g(5), E(100) + cnt2, n=30, gen=span)
        if b == 'b': c.eq('result', '%s: answer of call %d' % (nm, kk), g(3), where(cond & (dec > 0), 1, 0), n=30, gen=span)
        return cnt2, (hh, tag)

    def job(j):
        kd, b, n, pre = j
        nm = '%s slice%s of %s (%s)' % ({'t': 'time', 's': 'step', 'l': 'log time'}[kd[0]], ' reset after %d calls' % pre if kd.endswith('r') else '', 'an operation' if b == 'v' else 'a condition', n)
        H = lambda k: inp('in[%d]' % (30 + k)); D = lambda k: inp('in[%d]' % (50 + k))
        if kd.endswith('c'):
            st, en, q, ts = TH[n]
            nm = 'time slice%s over %s slices of (%s, %s), %s' % (' reset after %d calls' % pre if kd == 'timerc' else '', q, st, en, 'an operation' if b == 'v' else 'a condition')
            f = {0: st, 1: en, 2: F(q), 3: F(pre), 4: F(len(ts)), 5: F(1), 6: F(28), 7: F(3)}
            for k, t in enumerate(ts): f[10 + k] = t
            for k, t in enumerate((F(2), F(5), F(20))): f[18 + k] = t
            R = c.run(m, '%s_%s' % (kd[:-1], b), 80, f)
            if not c.usable(R, 'slice', nm): return
            due = st; cnt = E(0); state = (E(0), E(0))
            for k, t in enumerate(ts):
                fire = due <= t <= en
                cnt, state = judge(nm, R, k, E(0) < (1 if fire else -1), H(k), D(k), b, cnt, state)
                if fire: due += (en - st) / q
        elif kd.startswith('time'):
            R = c.run(m, kd + '_' + b, 80, {2: F(n), 3: F(pre), 4: F(K), 7: F(n + 2)})
            if not c.usable(R, 'slice', nm): return
            s0, s1 = inp('in[0]'), inp('in[1]'); due = s0; cnt = E(0); state = (E(0), E(0))
            for k in range(K):
                t = inp('in[%d]' % (10 + k)); cond = (t >= due) & (t <= s1)
                cnt, state = judge(nm, R, k, cond, H(k), D(k), b, cnt, state)
                due = where(cond, due + (s1 - s0) / n, due)
        elif kd.startswith('step'):
            N = 12; 
            R = c.run(m, kd + '_' + b, 120, {2: F(n), 3: F(pre), 4: F(N), 7: F(n + 1)})
            if not c.usable(R, 'slice', nm): return
            cnt = E(0); state = (E(0), E(0))
            for k in range(N): cnt, state = judge(nm, R, k, E(0) < (1 if k % n == 0 else -1), H(k), D(k), b, cnt, state)
        else:
            st, dur, q, ts = LH[n]
            nm = 'log time slice%s over %s slices of (%s, %s), %s' % (' reset after %d calls' % pre if kd.endswith('r') else '', q, st, st + dur, 'an operation' if b == 'v' else 'a condition')
            f = {0: st, 1: st + dur, 2: F(q), 3: F(pre), 4: F(len(ts)), 5: F(1), 6: F(1) + 27, 7: F(3)}
            for k, t in enumerate(ts): f[10 + k] = t
            for k, t in enumerate((F(2), F(5), F(20))): f[18 + k] = t
            R = c.run(m, kd + '_' + b, 80, f, intercepts=icp, max_steps=30000)
            if R.und and 'budget' in str(R.und): c.violation('slice', nm + ': a call returns', 'the due time does not move past the current time: %s' % R.und, "src/args-callback/callbacks.hpp"); return
            if not c.usable(R, 'slice', nm): return
            r = next(F(x, y) for x in range(1, 60) for y in (1, 2, 3, 4) if F(x, y)**q == dur)
            due = st + r; cnt = E(0); state = (E(0), E(0))
            for k, t in enumerate(ts):
                fire = t >= due and t <= st + dur
                cnt, state = judge(nm, R, k, E(0) < (1 if fire else -1), H(k), D(k), b, cnt, state)
                while fire and due <= t: due = (due - st) * r + st
    c.parallel(jobs, job)
    for b in 'vb':
        R = c.run(m, 'getop_' + b, 4, intercepts=icp)
        if c.usable(R, 'slice', 'operation of a slice'):
            c.eq('arguments', 'operation() of the three slices is the operation', c.out(R, 0), E(3), gen=span); c.eq('arguments', 'operation() of the three slices, step size', c.out(R, 1), inp('in[2]'), gen=span)
    R = c.run(m, 'defaults', 8)
    if R.und and 'division by zero' in R.und: c.violation('slice', 'slices without parameters can be called', R.und, 'src/args-callback/callbacks.hpp')
    elif c.usable(R, 'slice', 'default parameters'):
        for k in range(4):
            c.eq('firing', 'step slice without parameters, call %d' % k, c.out(R, 2 * k), E(k + 1)); c.eq('firing', 'step slice without an interval, call %d' % k, c.out(R, 2 * k + 1), E(k + 1))
    # a logarithmic slice over at most one unit of time
    for D, n in ((F(1, 16), 4), (F(1), 3)):
        f = {0: F(0), 1: D, 2: F(n), 3: F(0), 4: F(1), 10: D}
        R = c.run(m, 'log_v', 80, f, intercepts=icp, max_steps=30000)
        nm = 'log time slice over a duration of %s' % D
        if R.und: c.violation('slice', 'log time slice over at most one time unit returns', '%s in %d slices, called at its end: %s' % (nm, n, R.und), 'src/args-callback/callbacks.hpp')
        elif c.usable(R, 'slice', nm): c.decided('slice')
    return c.finish()
