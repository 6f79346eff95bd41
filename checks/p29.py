import itertools, variates
from hx import *
F = Fraction


def run():
    c = Check('P29', 'Random draws', 'value graphs of every generator over free or scripted uniform and normal variates (engines and the two standard distributions cut at their variates), against the inverse-distribution transforms; preconditions of the standard distributions; state of the engines', min_obl=150,
              assumptions=['std::mt19937, generate_canonical and normal_distribution deliver independent variates'])
    m = c.compile('random.cpp')
    LG, icp, reset = variates.cut()

    def go(f, fx, script=(), nout=10):
        reset(script)
        return c.run(m, f, nout, fx, intercepts=icp, max_steps=300000)

    def gen(nm, typ, rng):
        if nm[0] == 'u': return pit.rnd(rng, 0.01, 0.99)
        if nm[0] == 'z': return pit.rnd(rng, -2, 2)
        return None

    def positive(nm, typ, rng):
        if nm == 'in[0]': return pit.rnd(rng, 0.1, 2)
        if nm == 'in[1]': return pit.rnd(rng, 2.5, 9)
        return gen(nm, typ, rng)

    def match(kind, what, got, specs, g=gen, loc=None):
        """equal to one of the transforms with the same distribution (variate u or 1 - u, z or -z)"""
        for s in specs:
            b = s.t if isinstance(s, E) else s
            v = pit.equal(got, b, c.rng, g, n=8)
            if v.ok: c.decided(kind); return True
        return c.eq(kind, what, got, specs[0], gen=g)
    u = lambda k: E(mk('in', 'u[%d]' % k, 'f')); z = lambda k: E(mk('in', 'z[%d]' % k, 'f')); I = lambda k: inp('in[%d]' % k)
    uni = lambda a, b, k=0: [a + (b - a) * u(k), b - (b - a) * u(k)]

    def side(what, R, draws, g=gen):
        """preconditions and engine state of a run"""
        if R.und or R.dead: return
        c.true('draws', '%s draws %d variates' % (what, draws), LG['k'] == draws, 'it draws %d' % LG['k'])
        for nm, hi, lo in LG['ranges']:
            for _ in range(6):
                e = pit.Env(c.rng, g)
                try: a, b = e.ev(hi.t), e.ev(lo.t)
                except (ArithmeticError, ValueError): continue
                if not (a >= b if nm == 'range' else a > b):
                    c.decided('precondition')
                    c.violation('precondition', what, 'the standard distribution is given %s' % ('an upper limit below the lower' if nm == 'range' else 'a spread that is not positive')); break
            else: c.decided('precondition')
        for o in LG['draws']:
            sd = LG['engines'].get(o)
            kind = o.kind
            if sd is not None and not isinstance(sd, T) and kind == 'stack':
                c.violation('engine', what, 'the engine is made anew at every call from a constant seed: every call returns the same number')
        c.decided('engine')

    def simple(f, what, specs, draws, fx=None, g=gen, outs=None):
        R = go(f, fx or {})
        if not c.usable(R, 'transform', what): return
        for k, s in enumerate(specs): match('transform', '%s%s' % (what, '' if len(specs) == 1 else ', %s' % (outs[k] if outs else 'draw %d' % (k + 1))), c.out(R, k), s, g)
        side(what, R, draws, g)
    simple('uni', 'uniform', [uni(I(0), I(1)), uni(I(0), I(1), 1)], 2, g=lambda nm, t, r: pit.rnd(r, -3, 0) if nm == 'in[0]' else pit.rnd(r, 0.5, 3) if nm == 'in[1]' else gen(nm, t, r))
    lu = lambda k=0: [I(0) * powf(I(1) / I(0), u(k)), I(1) * powf(I(0) / I(1), u(k))]
    simple('lg', 'logarithmic', [lu()], 1, g=positive)
    for p in (F(2), F(1), F(1, 2), F(0), F(-1, 2), F(-3, 2), F(-2), F(-7, 2)):
        b = E(p + 1); lo, hi = powf(I(0), b), powf(I(1), b)
        simple('pw', 'power law %s' % p, [[powf(x, 1 / b) for x in uni(lo, hi)]], 1, {2: p}, positive)
    simple('pw', 'power law -1', [lu()], 1, {2: F(-1)}, positive)
    sdp = lambda i: (lambda nm, t, r: pit.rnd(r, 0.2, 3) if nm == 'in[%d]' % i else gen(nm, t, r))
    nz = lambda a, s, k=0: [a + s * z(k), a - s * z(k)]
    simple('nrm', 'normal', [nz(I(0), I(1)), nz(I(0), I(1), 1)], 2, g=sdp(1))
    simple('nrm0', 'normal without arguments', [nz(E(0), E(1))], 1); simple('nrm1', 'normal of a mean', [nz(I(0), E(1))], 1)
    simple('mx', 'Maxwellian', [[I(0) * sqrt(z(0)**2 + z(1)**2 + z(2)**2)]], 3, g=sdp(0))
    simple('fx', 'fixed value', [[I(0)]], 0)
    # rejection: the first draw inside the bounds is returned, whatever came before
    def first(f, what, fx, script, want, used, outs=1):
        R = go(f, fx, script)
        if R.und and 'more draws than' in R.und: c.decided('rejection'); c.violation('rejection', what, 'it goes on drawing although the draw lies within the bounds'); return
        if not c.usable(R, 'rejection', what): return
        for k, w in enumerate(want): c.eq('rejection', '%s, output %d' % (what, k + 1) if len(want) > 1 else what, c.out(R, k), E(w) if not isinstance(w, E) else w, need=1)
        c.true('draws', what + ': variates used', LG['k'] == used, 'it used %d variates, %d decide' % (LG['k'], used))
    lo, hi, mu, sg = F(-1), F(2), F(1, 2), F(2)
    zs = [F(-3, 4), F(3, 4), F(0), F(1, 4), F(-7, 8), F(7, 8), F(4), F(-4), F(1, 2), F(-1, 2), F(10**6)]
    inside = lambda x: lo <= mu + sg * x <= hi
    bad = [x for x in zs if not inside(x)]; good = [x for x in zs if inside(x)]
    for n in range(0, 5 if c.thorough else 4):
        for b in list(itertools.product(bad, repeat=n))[:: max(1, n * n - 1)][:40]:
            for gd in (good if n < 2 else good[:2]):
                first('tn', 'truncated normal, %s' % ', '.join(map(str, b + (gd,))), {0: lo, 1: hi, 2: mu, 3: sg}, b + (gd, F(0)), [mu + sg * gd], n + 1)
    for b in ((), (F(-3),), (F(5), F(-3))): first('tn0', 'truncated normal of mean 0 and spread 1, %d rejected' % len(b), {0: F(-1), 1: F(2)}, b + (F(1, 3), F(0)), [F(1, 3)], len(b) + 1)
    trip = [((F(1), F(2), F(2)), 3), ((F(2), F(-3), F(6)), 7), ((F(0), F(0), F(1, 2)), F(1, 2)), ((F(-2), F(-1), F(2)), 3), ((F(0), F(3), F(4)), 5), ((F(4), F(4), F(7)), 9), ((F(0), F(0), F(0)), 0)]
    sg = F(3, 2)
    for l, h in ((F(2), F(8)), (F(3) * sg, F(5) * sg), (F(0), F(5) * sg)):
        ok = [t for t in trip if l <= sg * t[1] <= h]; no = [t for t in trip if not l <= sg * t[1] <= h]
        for n in range(0, 3):
            for b in list(itertools.product(no, repeat=n))[:12]:
                for gd in ok:
                    scr = [x for t in b for x in t[0]] + list(gd[0])
                    first('tm', 'truncated Maxwellian in [%s, %s], rejected %s, then %s' % (l, h, [str(t[1]) for t in b], gd[1]), {0: l, 1: h, 2: sg}, scr + [F(0)] * 3, [sg * gd[1]], 3 * n + 3)
    # the polar method
    pts = [(F(3, 5), F(0)), (F(-1, 2), F(1, 2)), (F(1, 10), F(-1, 5)), (F(1), F(0)), (F(9, 10), F(9, 10)), (F(-3, 4), F(-1, 4)), (F(0), F(0)), (F(3, 10), F(4, 10)), (F(-1), F(1))]
    for r in (F(0), F(1, 2), F(3, 10)):
        fine = lambda p: r * r < p[0]**2 + p[1]**2 < 1
        for n in range(0, 3):
            for b in list(itertools.product([p for p in pts if not fine(p)], repeat=n))[:12]:
                for gd in [p for p in pts if fine(p)]:
                    s = [(x + 1) / 2 for p in b + (gd, gd) for x in p]; r2 = gd[0]**2 + gd[1]**2
                    fct = sqrt(-2 * log(E(r2)) / r2)
                    first('n2', 'pair of normals beyond %s, %d rejected, then (%s, %s)' % (r, n, *gd), {0: r}, s, [gd[0] * fct, gd[1] * fct], 2 * n + 2)
    # parameters
    for w, lo, hi in ((0, None, None), (1, F(-1), None), (2, None, F(2)), (3, F(-1), F(2)), (4, F(-1), F(2)), (3, F(-3), F(-1)), (2, None, F(-1))):
        ok = lambda x: (lo is None or x >= lo) and (hi is None or x <= hi)
        a, b = F(-4), F(4); us = [F(1, 8), F(7, 8), F(3, 8), F(6, 8), F(5, 16)]
        val = lambda x: a + (b - a) * x
        good = [x for x in us if ok(val(x))]; bad = [x for x in us if not ok(val(x))]
        for n in range(0, 3):
            for bb in list(itertools.product(bad, repeat=n))[:10]:
                for gd in good:
                    fx = {0: a, 1: b, 2: w, 3: lo if lo is not None else F(0), 4: hi if hi is not None else F(0)}
                    wd = ['no bounds', 'a lower bound', 'an upper bound', 'both bounds', 'both bounds, one by one'][w]
                    first('par', 'parameter with %s (%s, %s): %s' % (wd, lo, hi, ', '.join(str(val(x)) for x in bb + (gd,))), fx, bb + (gd, F(1, 2)), [val(gd)], n + 1)
                    if w < 4: first('parn', 'normal parameter with %s (%s, %s): %s' % (wd, lo, hi, ', '.join(str(val(x)) for x in bb + (gd, gd))), {**fx, 0: F(0), 1: F(4)}, [(val(x)) / 4 for x in bb + (gd,) + bb + (gd, gd)], [val(gd)] * 2, 2 * n + 2)
    for x in (F(-5), F(0), F(7), F(-1, 10**6)): first('parf', 'fixed parameter %s' % x, {0: x}, (), [x], 0)
    # orbits
    pi = E(F('3.14159265358979323846'))
    NM = ['m1', 'm2', 'p', 'e', 'i', 'Omega', 'omega', 'nu']
    go_g = lambda nm, t, r: pit.rnd(r, 0.2, 0.8) if nm == 'in[3]' else pit.rnd(r, 0.3, 2) if nm in ('in[0]', 'in[1]', 'in[2]') else gen(nm, t, r)
    inc = lambda k: [acos(x) for x in uni(E(-1), E(1), k)]
    ang = lambda k: [x for x in uni(-pi, pi, k)] + [x for x in uni(E(0), 2 * pi, k)]
    for ecc in (F(1, 2), F(0), F(1), F(3)):
        for f, slots in (('ki', {4: inc(0)}), ('kO', {5: ang(0)}), ('ko', {6: ang(0)}), ('kall', {4: inc(0), 5: ang(1), 6: ang(2)}), ('shi', {4: inc(0)}), ('shO', {5: ang(0)}), ('sho', {6: ang(0)})):
            R = go(f, {3: ecc})
            nm = '%s of an orbit of eccentricity %s' % ({'ki': 'random inclination', 'kO': 'random node', 'ko': 'random periapsis', 'kall': 'random orientation', 'shi': 'shuffled inclination', 'shO': 'shuffled node', 'sho': 'shuffled periapsis'}[f], ecc)
            if not c.usable(R, 'orbit', nm): continue
            for k in range(8): match('orbit', '%s: %s' % (nm, NM[k]), c.out(R, k), slots.get(k) or [E(ecc) if k == 3 else I(k)], go_g)
            side(nm, R, len(slots), go_g)
    for f in ('kn', 'shn'):
        R = go(f, {3: F(1, 2)})
        if c.usable(R, 'orbit', 'random anomaly'):
            ec = E(F(1, 2)); root = inp('root')
            fx = LG['roots']
            if not fx:    # no call of the solver: the mean anomaly of the returned angle has to be the uniform one itself
                nu = E(c.out(R, 7)); ea = 2 * atan2(sqrt(1 - ec) * sin(nu / 2), sqrt(1 + ec) * cos(nu / 2)); mean = ea - ec * sin(ea)
                match('orbit', 'random anomaly (%s): the mean anomaly is uniform' % f, sin(mean).t, [sin(M) for M in uni(-pi, pi) + uni(E(0), 2 * pi)], go_g); continue
            x = E(fx[-1]); sol = inp('x')
            specs = [s * (sol - ec * sin(sol) - M) for M in uni(-pi, pi) + uni(E(0), 2 * pi) for s in (1, -1)]
            match('orbit', 'random anomaly (%s): the mean anomaly is uniform' % f, x.t, specs, go_g)
            match('orbit', 'random anomaly (%s): true anomaly of the root' % f, c.out(R, 7), [2 * atan2(sqrt(1 + ec) * sin(root / 2), sqrt(1 - ec) * cos(root / 2))], go_g)
            for k in range(7): match('orbit', 'random anomaly (%s): %s' % (f, NM[k]), c.out(R, k), [E(F(1, 2)) if k == 3 else I(k)], go_g)
            side('random anomaly', R, 1, go_g)
    return c.finish()
