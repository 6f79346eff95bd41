from radau import *
MIN = Fraction(1, 8)


def words(k):
    """protocol words: n = not converged, c = converged below tolerance, g = converged because it stopped improving; then a = accepted, r = rejected, e = rejected at the limit"""
    def rec(w, left):
        prev_n = bool(w) and w[-1] == 'n'
        for t in ('c', 'g') if prev_n else ('c',): yield w + [t + 'a']
        if left > 1:
            for t in ['n'] + [x + y for x in (('c', 'g') if prev_n else ('c',)) for y in 're']: yield from rec(w + [t], left - 1)
    return list(rec([], k))


def run():
    c = Check('P07', 'IAS15 protocol', 'every control history of IAS15::iterate (convergence outcomes and proposed ratios) up to a length, with the data symbolic: start state of every attempt, committed state, '
              'returned step and error handed to the controller are compared with the protocol; a history that exhausts the budget must end in a failure exit', min_obl=500)
    m = c.compile('ias15.cpp')
    L = 4 if c.thorough else 3
    hist = [(w, ['ca']) for w in words(L)] + [(w0, w) for w in words(2) for w0 in (['ca'], ['n', 'ga'], ['n', 'cr', 'ca'])]

    def job(j):
        kind, (w1, w2) = j
        n = 7 if kind == 'plain' else 12
        fixed = {}; pc = []; rt = []
        base = err = Fraction(1000)   # after convergence the first error of the next attempt is larger than any before
        for w in (w1, w2):
            for t in w:
                if t == 'n': err = err - 10; pc.append(err)
                elif t[0] == 'c': pc.append(Fraction(1, 2)); base += 1000; err = base
                else: pc.append(err if len(pc) % 2 else err + 1); base += 1000; err = base
                if t[-1] == 'a': rt.append([Fraction(3, 4), Fraction(3)][len(rt) % 2])
                elif t[-1] == 'r': rt.append(Fraction(1, 16))
                elif t[-1] == 'e': rt.append(MIN)
        for k, x in enumerate(pc): fixed[30 + k] = x
        for k, x in enumerate(rt): fixed[60 + k] = x
        nm = '%s: %s | %s' % (kind, ' '.join(w1), ' '.join(w2))
        R = c.run(m, kind, 40, fixed)
        if not c.usable(R, 'protocol', nm): return
        ev = [(x[0][3:], x[1], x[2]) for x in R.st.ev if x[0].startswith('ev_')]
        starts = [k for k, x in enumerate(ev) if x[0] == 'start']
        r = Ref([inp('in[%d]' % i) for i in range(n)]); envs = []
        eq = lambda what, a, b, k='protocol': c.eq(k, nm + ' -> ' + what, a, b, tol=mpf(10)**-8, scale=mpf(1), envs=envs)
        a = 0; ri = 0; nexts = [x for x in ev if x[0] == 'next']; rejected = False
        if not c.true('protocol', nm + ' attempts', len(starts) == 8 * (len(w1) + len(w2)), '%d derivative evaluations for %d attempts of 8' % (len(starts), len(w1) + len(w2))): return
        for it, w in enumerate((w1, w2)):
            h = inp('in[%d]' % (20 + it))
            for t in w:
                y0 = list(r.y); out0 = len(r.out)
                r.correct(h)
                states = [v for _, v in r.out[out0:]]
                for s in range(8):
                    k = starts[8 * a + s]
                    got = [x[1][0] for x in ev[k + 1:k + 1 + n]]
                    for i in range(n):
                        if s == 0: eq('attempt %d starts from the unchanged state [%d]' % (a, i), got[i], states[i])
                        elif not rejected and s in (1, 7) and i in (0, n - 1): eq('attempt %d node %d state [%d] (prediction)' % (a, s, i), got[i], states[8 * 0 + n * s + i], 'prediction')
                a += 1
                if t == 'n': continue
                if not c.true('protocol', nm + ' proposal %d is asked for' % ri, ri < len(nexts), 'no proposal'): return
                e = step_error(r, n, h, kind)
                eq('order given to the controller [%d]' % ri, nexts[ri][1][0], E(7), 'controller')
                eq('error given to the controller [%d]' % ri, nexts[ri][1][1], e, 'controller')
                q = rt[ri]; ri += 1
                if t[-1] == 'a':
                    r.evaluate(h); lim = E(mk('uf:lim', fc(q)))
                    eq('step %d returns the committed step times the limited ratio' % it, c.out(R, it * (n + 1)), h * lim)
                    for i in range(n): eq('step %d committed state [%d]' % (it, i), c.out(R, it * (n + 1) + 1 + i), r.y[i])
                    r.predict(lim)
                else:
                    rejected = True; h = h * E(q)
        c.true('protocol', nm + ' one proposal per converged attempt', ri == len(nexts), '%d proposals, %d converged attempts' % (len(nexts), ri))

    c.parallel([(k, h) for h in hist for k in (('plain', 'rich') if len(h[0]) + len(h[1]) < 4 or c.thorough else ('plain',))], job)
    # the budget: an attempt that never converges ends the run, nothing is returned
    R = c.run(m, 'exhaust', 40, {})
    if R.und: c.undecided('budget', R.und)
    else: c.true('budget', 'an attempt that never converges aborts the run', R.dead, 'IAS15::iterate returns although no attempt converged')
    return c.finish()


def step_error(r, n, h, kind):
    """max |b6| over max |dy_h| of the components that are not masked, over 5e-10"""
    y = r.y
    slow = V(y[1], y[2], y[3]).norm2() * E(Fraction(1, 10**12)) > V(y[4], y[5], y[6]).norm2() * (h / 2)**2
    ld = E(0); ls = E(0)
    for i in range(n):
        if i == 0 and kind == 'plain': continue
        masked = 1 <= i < 7 or kind == 'rich' and 7 <= i < 10
        b = fabs(r.b[i][6]); d = fabs(r.F[i])
        if masked: b = where(slow, E(0), b); d = where(slow, E(0), d)
        ld = emax(ld, b); ls = emax(ls, d)
    return where(ls.eq(E(0)), E(0), ld / (ls * E(Fraction(5, 10**10))))
