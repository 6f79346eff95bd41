from hx import *
DEFAULTS = {}


def ref(norm, kind, args, n, w, a, b, cc, at, rt):
    vec = kind == 'v'
    comp = lambda x, i: [x[3 * i], x[3 * i + 1], x[3 * i + 2]] if vec else [x[i]]
    mx = lambda v: emax(emax(fabs(v[0]), fabs(v[1])), fabs(v[2])) if vec else fabs(v[0])
    dif = (lambda i: [p - q for p, q in zip(comp(cc, i), comp(b, i))]) if args == 3 else (lambda i: comp(b, i))
    sc = (lambda i: emax(mx(comp(a, i)), mx(comp(b, i)))) if args == 3 else (lambda i: mx(comp(a, i)))
    if norm == 'wo':
        r = E(0)
        for i in range(n): r = emax(r, mx(dif(i)) / (at + sc(i) * rt))
        return r
    if norm == 'mr':
        d = E(0); s = E(0)
        for i in range(n): d = emax(d, mx(dif(i))); s = emax(s, at + mx(comp(a, i)) * rt)
        return d / s
    s = E(0); m = 3 * n if vec else n
    for i in range(m):
        q = (cc[i] - b[i]) / (at + emax(fabs(a[i]), fabs(b[i])) * rt); s = s + q * q
    return sqrt(s / m)


def run():
    c = Check('P10', 'Error norms', 'worst-offender, root-mean-square and max-ratio norm over plain, compensated and vector arrays, one obligation per array length, tolerance setting and agreeing component: value numbers '
              'against the declared norm', min_obl=150)
    m = c.compile('errors.cpp')

    def gen(name, ty, rng):
        if name in ('in[1]', 'in[2]', 'in[4]', 'in[5]'): return mpf(rng.uniform(1e-3, 1))
        if rng.random() < .3: return mpf(rng.uniform(-40, 40))
        return default_gen(name, ty, rng)
    gen.dom = lambda name: (0, None) if name in ('in[1]', 'in[4]') else (mpf(10)**-30, None) if name in ('in[2]', 'in[5]') else (-mpf(10)**9, mpf(10)**9)
    jobs = [(f, k, a, n, w) for f, a in (('wo', 3), ('rms', 3), ('mr', 3), ('wo', 2), ('mr', 2)) for k in 'dkv' for n in ((1, 2, 3, 4) if not c.thorough else (1, 2, 3, 4, 5, 6)) for w in ((1, 2, 5) if n == 2 or c.thorough else (2,))]
    jobs += [(f, 'd', 3, 2, w) for f in ('wo', 'rms', 'mr') for w in (0, 3, 4)]

    def fnname(f, k, a): return '%s_%s%s' % (f, k, '' if a == 3 else '2')

    def job(j):
        f, k, args, n, w = j
        nm = '%s %s array%s of %d, setting %d' % (dict(wo='worst offender', rms='RMS', mr='max ratio')[f], dict(d='plain', k='compensated', v='vector')[k], '' if args == 3 else ' (difference form)', n, w)
        R = c.run(m, fnname(f, k, args), 8, {0: n, 3: w})
        if not c.usable(R, 'norm', nm): return
        a0, r0 = E(c.out(R, 3)), E(c.out(R, 4))     # what it was constructed with
        at, rt = inp('in[1]'), inp('in[2]')
        wa, wr = (a0 if w in (0, 4) else at), (r0 if w in (0, 3) else rt)
        c.eq('tolerance', nm + ' absolute tolerance', c.out(R, 1), wa); c.eq('tolerance', nm + ' relative tolerance', c.out(R, 2), wr)
        N = n * (3 if k == 'v' else 1)
        A, B, C = ([inp('in[%d]' % (o + i)) for i in range(N)] for o in (10, 30, 50))
        # the domain: plenty of draws in which each component is the decisive one, besides the general ones
        want = ref(f, k, args, n, w, A, B, C, wa, wr)
        c.eq('norm', nm, c.out(R, 0), want, gen=gen, n=16)
        for q in range(N):
            def g(name, ty, rng, q=q):
                i = int(name[3:-1]) if name.startswith("in[") else -1
                if i in (50 + q, 30 + q if args == 2 else 50 + q): return mpf(rng.uniform(5, 50)) * rng.choice((-1, 1))
                if name in ('in[1]', 'in[2]', 'in[4]', 'in[5]'): return mpf(rng.uniform(1e-3, 1))
                return mpf(rng.uniform(.9, 1.1))
            c.eq('every component', '%s with component %d decisive' % (nm, q), c.out(R, 0), want, gen=g, n=6)
            if f != 'rms' or True:
                def g2(name, ty, rng, q=q):
                    i = int(name[3:-1]) if name.startswith("in[") else -1
                    if i == 10 + q: return mpf(rng.uniform(50, 500)) * rng.choice((-1, 1))
                    if name in ('in[1]', 'in[2]', 'in[4]', 'in[5]'): return mpf(rng.uniform(1e-3, 1))
                    return default_gen(name, ty, rng)
                c.eq('every component', '%s with scale of component %d large' % (nm, q), c.out(R, 0), want, gen=g2, n=6)
        # identical results: zero error, whatever else is in the arrays (constant propagation of equal leaves)
        if args == 3:
            t = E(c.out(R, 0)) if isinstance(c.out(R, 0), T) else None
            if t is not None:
                for i in range(N): t = E(subst(t.t, 'in[%d]' % (50 + i), B[i]))
                c.eq('agreement', nm + ' is zero for equal results', t.t, E(0), gen=gen)
        # a component that vanishes in every array with zero absolute tolerance has no error, wherever it stands; the others count as before
        if f in ('wo', 'rms') and n >= 2 and w == 2:
            for z in range(n):
                fx = {0: n, 3: w, 1: 0}
                idx = [3 * z, 3 * z + 1, 3 * z + 2] if k == 'v' else [z]
                for o in (10, 30, 50):
                    for i in idx: fx[o + i] = 0
                R2 = c.run(m, fnname(f, k, args), 8, fx)
                if not c.usable(R2, 'zero component', nm): continue
                keep = [i for i in range(n) if i != z]
                pick = (lambda x: [y for i in keep for y in x[3 * i:3 * i + 3]]) if k == 'v' else (lambda x: [x[i] for i in keep])
                v = ref(f, k, args, n - 1, w, pick(A), pick(B), pick(C), E(0), rt)
                if f == 'rms': v = v * sqrt(E(Fraction(n - 1, n)))
                c.eq('zero component', '%s, item %d is zero throughout' % (nm, z), c.out(R2, 0), v, gen=gen, n=10)
        # Default construction: positive total tolerance
        if w == 0: c.true('tolerance', nm + ' default tolerance is positive', any(vg.isfc(x.t) and x.t.args[0] > 0 for x in (a0, r0)), 'both default tolerances vanish')
    c.parallel(jobs, job)
    return c.finish()
