from hx import *
LIST = [('s2', 'Symplectic2nd', 2), ('dkd', 'LeapFrogDKD', 2), ('kdk', 'LeapFrogKDK', 2), ('s4', 'Symplectic4th', 4), ('s6', 'Symplectic6th', 6), ('s8', 'Symplectic8th', 8), ('s10', 'Symplectic10th', 10)]


def word_series(ops, p):
    """product of exp(c A), exp(d B) in the free algebra, words up to length p: {word: coefficient}"""
    cur = {'': mpf(1)}
    for k, c in ops:
        nxt = {}
        for w, v in cur.items():
            f = v; q = w
            for j in range(p - len(w) + 1):
                nxt[q] = nxt.get(q, 0) + f
                f = f * c / (j + 1); q = q + k
        cur = nxt
    return cur


def run():
    c = Check('P05', 'Symplectic compositions', 'ordered drift and kick effects of every integrator are extracted from its value graph; their coefficients are homogeneous in the step, palindromic, sum to one and '
              'satisfy every order condition (all words of the free associative algebra on drift and kick up to the declared order)', min_obl=30)
    m = c.compile('symplectic.cpp')

    def effects(fn, n=1):
        R = c.run(m, fn, 4)
        if not c.usable(R, 'effects', fn): return None, None
        ev = []
        for name, args, loc in R.st.ev:
            if not name.startswith('ev_'): continue
            ev.append((name[3], args[0], loc))
        return R, ev

    for fn, cls, p in LIST:
        R, ev = effects(fn)
        if R is None: continue
        c.true('effects', cls + ' has effects', len(ev) >= 3, 'no drift or kick effect found in %s' % cls)
        c.eq('order', cls + ' declared order', c.out(R, 0), E(p))
        co = []
        h = inp('in[0]')
        for k, a, loc in ev:
            e = pit.Env(c.rng, None, {'in[0]': mpf(1)}); v = e.ev(a) if isinstance(a, T) else mpf(a)
            if not c.eq('linear', '%s %s fraction %s is proportional to the step' % (cls, 'drift' if k == 'd' else 'kick', pit.mpmath.nstr(v, 8)), a, E(fc(Fraction(str(pit.mpmath.nstr(v, 45))))) * h): continue
            if v == 0: continue
            if co and co[-1][0] == k: co[-1] = (k, co[-1][1] + v, loc)
            else: co.append((k, v, loc))
        loc = co[0][2] if co else None
        for i in range(len(co) // 2):
            a, b = co[i], co[-1 - i]
            c.true('palindromic', '%s stage %d mirrors stage %d' % (cls, i, len(co) - 1 - i), a[0] == b[0] and abs(a[1] - b[1]) < mpf(10)**-15,
                   '%s %s against %s %s' % (a[0], pit.mpmath.nstr(a[1], 17), b[0], pit.mpmath.nstr(b[1], 17)), b[2])
        for k, nm in (('d', 'drift'), ('k', 'kick')):
            s = sum((x for kk, x, _ in co if kk == k), mpf(0))
            c.true('consistent', '%s %s fractions sum to one' % (cls, nm), abs(s - 1) < mpf(10)**-13, 'sum is %s' % pit.mpmath.nstr(s, 17), loc)
        ser = word_series([(k, v) for k, v, _ in co], p)
        worst = {}
        for w, v in ser.items():
            r = abs(v - 1 / mpf(pit.mpmath.factorial(len(w)))) * pit.mpmath.factorial(len(w))
            if r > worst.get(len(w), (mpf(-1),))[0]: worst[len(w)] = (r, w)
        size = max(sum(abs(x) for kk, x, _ in co if kk == k) for k in 'dk')
        c.decided('order conditions', len(ser) - (p + 0))
        for q in range(1, p + 1):
            r, w = worst[q]
            c.true('order conditions', '%s order %d' % (cls, q), r < max(mpf(10)**-11, mpf(10)**-16 * size**q), 'word %s misses its coefficient by a relative %s: the composition is not of order %d' % (w, pit.mpmath.nstr(r, 5), q), loc)
        c.note('%s: %d stages, worst relative residual of the order conditions %s' % (cls, len(co), pit.mpmath.nstr(max(x[0] for x in worst.values()), 3)))
        want = {'s2': 'dkd', 'dkd': 'dkd', 'kdk': 'kdk'}.get(fn)
        if want: c.true('leapfrog', cls + ' sequence', ''.join(k for k, _, _ in co) == want, 'sequence %s' % ''.join(k for k, _, _ in co), loc)
    R, ev = effects('twice')
    if R is not None:
        k = len(ev) // 2
        for i in range(k):
            c.true('stateless', 'second step effect %d' % i, ev[i][0] == ev[k + i][0], 'effect kinds differ between two steps of one integrator')
            c.eq('stateless', 'second step fraction %d' % i, subst(ev[i][1], 'in[0]', inp('in[1]')), ev[k + i][1])
    return c.finish()
