"""Gas drag of the disc models: the value graphs of the accelerations, read over states aimed at every branch and table cell."""
from hx import *
import bisect
from mpmath import mpf, mp
mp.dps = 50
W = 8


def run():
    c = Check('P38', 'Gas drag of the disc models', 'the accelerations that the disc drag models add are taken from the code as value graphs; momentum and dependence are decided symbolically, the drag law over states aimed at every branch, join and table cell, '
              'and every computed table index is compared with the bounds of its table', min_obl=600)
    m = c.compile('drag.cpp')
    init = [f for f in m.funcs if f.startswith('_GLOBAL__sub_I_')]

    def args(g, st, i, o):
        for f in init: g.call_fn(f, [], st)
        return [P(i, 0), P(o, 0)]

    # ---- the tables of the magnetised disc, as the initialisers of the code leave them
    R = c.run(m, 'tables', 3000, {}, args=args)
    if not c.usable(R, 'table', 'the tables'): return c.finish()
    U = c.run(m, 'unit_cm', 3, {})
    cm, sec, kg = [pit.Env(c.rng).ev(c.out(U, k)) for k in range(3)]
    tabs = []; k = 0
    for _ in range(6):
        n = int(pit.Env(c.rng).ev(c.out(R, k))); tabs.append([pit.Env(c.rng).ev(c.out(R, k + 1 + j)) for j in range(n)]); k += n + 1
    lgM, gI, lgr, lgrho, lgH, vt = tabs
    for what, x, ys in (('Mach number', lgM, [gI]), ('radius', lgr, [lgrho, lgH, vt])):
        c.true('table', 'the grid in %s increases' % what, len(x) > 2 and all(a < b for a, b in zip(x, x[1:])), 'it does not increase at entry %s' % [j for j in range(len(x) - 1) if not x[j] < x[j + 1]][:1])
        for j, y in enumerate(ys): c.true('table', 'the tables over %s have one entry per grid point (%d)' % (what, j), len(y) == len(x), '%d entries for %d grid points' % (len(y), len(x)))
        h = (x[-1] - x[0]) / (len(x) - 1)
        dev = max(abs((v - x[0]) / h - j) for j, v in enumerate(x))
        c.true('table', 'the grid in %s is uniform enough for a computed cell' % what, dev < mpf('0.5'), 'entry %s cells from its place' % mp.nstr(dev, 4))
        for j, y in enumerate(ys):                     # a mistyped entry stands out of its neighbours
            d = [abs(y[k - 1] - 2 * y[k] + y[k + 1]) for k in range(1, len(y) - 1)]; big = max(abs(a - b) for a, b in zip(y, y[1:]))
            c.true('table', 'the entries over %s run on smoothly (%d)' % (what, j), max(d) <= 1.5 * big and all(mp.isfinite(v) for v in y), 'a jump of %s at entry %d' % (mp.nstr(max(d), 5), d.index(max(d)) + 1))
    if c.viol: return c.finish()

    def interp(x, xs, ys):
        k = min(max(bisect.bisect_right(xs, x) - 1, 0), len(xs) - 2)
        return ys[k] + (x - xs[k]) * (ys[k + 1] - ys[k]) / (xs[k + 1] - xs[k])

    rng = c.rng
    def u(a, b): return pit.rnd(rng, a, b)
    def unit():
        while True:
            v = [u(-1, 1) for _ in range(3)]; n = mp.sqrt(sum(x * x for x in v))
            if 0.1 < n < 1: return [x / n for x in v]

    # ---- the laws, outside the joins
    eps = mp.exp(-2)
    def I_alpha(M):
        if M <= mpf('0.1'): return M / 3
        if M < 1 - eps: return (mp.log((1 + M) / (1 - M)) / 2 - M) / M**2
        if M > 1 + eps: return (mp.log(1 - 1 / M**2) / 2 + 3) / M**2
        return None
    def I_magneto(M):
        if M == 0: return mpf(0)
        l = mp.log10(M)
        return M / 3 if l < lgM[0] else mpf(0) if l >= lgM[-1] else interp(l, lgM, gI)
    kk = {}                                            # measured factors: units of the tables, scale of the density

    class Alpha:
        params = lambda s: dict(Q=u(0.5, 2), al=u(0.05, 1.5), la=u(0.1, 2))
        Rr = (0.2, 30)
        def gas(s, x, M, p):
            Rc = mp.sqrt(x[0]**2 + x[1]**2); Om = mp.sqrt(M / Rc**3); md = p['la'] * mpf('0.22') * M / mpf(10)**7 / (2 * mp.pi)
            H = mp.cbrt(p['Q'] / 2 / p['al'] * md / M / Om) * Rc
            v = mp.sqrt(M / Rc)
            return [-v * x[1] / Rc, v * x[0] / Rc, mpf(0)], Om * H, kk[s.name] * M / (2 * p['Q'] * mp.pi * Rc**3) * mp.exp(-x[2]**2 / (2 * H * H)), H
        I = staticmethod(I_alpha)
        def force(s, m, r, rho, cs, vv):
            df = 4 * mp.pi * m * m / cs**2 * rho; ae = 4 * mp.pi * r * r * rho * vv**2
            I = s.I(vv / cs)
            if I is None and s.mode != -1: return None
            return {0: lambda: df * I + ae, 1: lambda: df * I, -1: lambda: ae}[s.mode]()

    class Capture(Alpha):
        params = lambda s: dict(Q=mpf(1), al=mpf(1), la=mpf(1))
        def force(s, m, r, rho, cs, vv): return mp.pi * r * r * rho * vv**2

    class Magneto(Alpha):
        params = lambda s: {}
        Rr = (mpf(10)**lgr[0] * cm * 0.5, mpf(10)**lgr[-1] * cm * 1.5)
        I = staticmethod(I_magneto); mode = 0
        def tab(s, x, ys):
            l = mp.log10(mp.sqrt(x[0]**2 + x[1]**2) / cm)
            return ys[0] if l < lgr[0] else ys[-1] if l >= lgr[-1] else interp(l, lgr, ys)
        def gas(s, x, M, p):
            Rc = mp.sqrt(x[0]**2 + x[1]**2); v = kk['v'] * s.tab(x, vt)
            H = kk['H'] * mpf(10)**s.tab(x, lgH); r = mp.sqrt(Rc**2 + x[2]**2)
            return [-v * x[1] / Rc, v * x[0] / Rc, mpf(0)], mp.sqrt(M / r**3) * H, kk['rho'] * mpf(10)**s.tab(x, lgrho), H

    def mk_model(K, fn, mode=0):
        o = K(); o.fn = fn; o.name = fn; o.mode = mode; return o
    models = [mk_model(Capture, 'capture'), mk_model(Alpha, 'alpha0', 0), mk_model(Alpha, 'alphap', 1), mk_model(Alpha, 'alpham', -1), mk_model(Magneto, 'magneto')]
    title = dict(capture='DiskCaptureStar', alpha0='AlphaDisk, both forces', alphap='AlphaDisk, dynamical friction', alpham='AlphaDisk, aerodynamic drag', magneto='MagnetoDisk')
    for o in models: kk[o.name] = mpf(1)
    runs = {}

    def key(n, ps, prior, p):
        d = {}
        for i, (mm, x, v, r) in enumerate(ps):
            b = 8 + W * i; d[b] = mm; d[b + 7] = r
            for k in range(3): d[b + 1 + k] = x[k]; d[b + 4 + k] = v[k]
        for k in range(3 * n): d[100 + k] = prior[k]
        for k, q in zip(('Q', 'al', 'la'), (200, 201, 202)):
            if k in p: d[q] = p[k]
        d[1] = mpf(0)
        return {'in[%d]' % k: v for k, v in d.items()}

    def acc(o, ps, p, prior=None, preset=None):
        """accelerations of the code in the state -> (list, environment)"""
        n = len(ps); R = runs[(o.name, n)]
        e = pit.Env(rng, None, key(n, ps, prior or [mpf(0)] * (3 * n), p))
        e.memo.update(preset or {})
        return [e.ev(c.out(R, k)) for k in range(3 * n)], e

    def norm(v): return mp.sqrt(sum(x * x for x in v))
    def rel(v, w): return [a - b for a, b in zip(v, w)]
    def place(o, M, Rc=None, z=None, ang=None):
        Rc = Rc if Rc is not None else mp.exp(u(mp.log(o.Rr[0]), mp.log(o.Rr[1]))); t = u(-3, 3) if ang is None else ang
        return [Rc * mp.cos(t), Rc * mp.sin(t), z if z is not None else mpf(0)]
    def bad(x): return not all(mp.isfinite(v) for v in x)
    def st(o, p, mach, mi=None, r=None, Rc=None, z='r', d=None, origin=None, M=None, add=None):
        """a two-body state whose second body moves at the given Mach number through the gas"""
        M = M or u(0.5, 5); x = place(o, M, Rc)
        x[2] = u(-0.02, 0.02) * norm(x) if z == 'r' else z
        vg_, cs, rho, H = o.gas(x, M, p)
        if z == 'r' and o.name != 'magneto': x[2] = u(-1.5, 1.5) * H; vg_, cs, rho, H = o.gas(x, M, p)
        d = d or unit(); x0 = origin or [u(-1, 1) for _ in range(3)]; v0 = [u(-1, 1) for _ in range(3)] if origin is None else [mpf(0)] * 3
        v = [a + b + mach * cs * q for a, b, q in zip(v0, vg_, d)]
        return [(M, x0, v0, u(0.1, 1)), (mi or u(0.1, 1), [a + b for a, b in zip(x0, x)], v, u(0.001, 0.1) if r is None else r)]

    def spec(o, ps, p, prior):
        M, x0, v0, _ = ps[0]; out = list(prior); tot = [mpf(0)] * 3
        for i, (mm, x, v, r) in enumerate(ps):
            if not i: continue
            g, cs, rho, H = o.gas(rel(x, x0), M, p); w = rel(rel(v, v0), g); vv = norm(w)
            f = o.force(mm, r, rho, cs, vv)
            if f is None: return None
            for k in range(3): q = -f * w[k] / vv; out[3 * i + k] += q / mm; out[k] -= q / M
        return out

    seen_cells = {}; oob = []
    def tables(o, R, e, ps):
        for node, val in e.memo.items():
            if node.op != 'tab': continue
            ti, off = node.args; loc = tloc(node); x = vg.sgn(e.memo[off] if isinstance(off, T) else off, 64)
            vals, z = vg.TABLES[ti]
            seen_cells.setdefault((loc, ti), set()).add(x // z)
            if (x % z or not 0 <= x < z * len(vals)) and not oob: oob.append((loc, x // z, len(vals), o.name))

    def show(ps, o, cs=None): return 'masses %s, separation %s, relative velocity %s' % ([mp.nstr(q[0], 6) for q in ps], [mp.nstr(a, 8) for a in rel(ps[1][1], ps[0][1])], [mp.nstr(a, 8) for a in rel(ps[1][2], ps[0][2])])
    def differ(a, b, tol):
        s = max(abs(x) for x in b) or mpf(1)
        for k, (x, y) in enumerate(zip(a, b)):
            if not mp.isfinite(x) or abs(x - y) > tol * max(abs(y), s * mpf(10)**-9): return k
        return None

    N = 3 if c.thorough else 1
    for o in models:
        T_ = title[o.name]
        for n in (1, 2, 3):
            R = c.run(m, o.fn, 3 * n + 1, {0: n}, args=args)
            if not c.usable(R, 'model', T_): break
            runs[(o.name, n)] = R
        else: n = None
        if n: continue
        # ---- symbolic: one particle feels nothing; total momentum
        R1 = runs[(o.name, 1)]
        for k in range(3): c.eq('momentum', T_ + ': a single body is not dragged, component %d' % k, c.out(R1, k), inp('in[%d]' % (100 + k)))
        # ---- scale of the model, measured once and the same everywhere
        p = o.params()
        try:
            if o.name == 'magneto':
                kk.update(v=mpf(0), H=mpf(1), rho=mpf(1))
                M = mpf(2); xR = mpf(10)**lgr[0] * cm / 2
                b0 = (M, [mpf(0)] * 3, [mpf(0)] * 3, mpf(1)); X = [xR, mpf(0), mpf(0)]; tiny = mpf(10)**-20
                a, _ = acc(o, [b0, (tiny, X, [mpf(0), mpf(0), mpf(10)**25], mpf(1))], p)
                kk['rho'] = -a[5] * tiny / (4 * mp.pi * mpf(10)**50) / mpf(10)**lgrho[0]
                a, _ = acc(o, [b0, (tiny, X, [mpf(0)] * 3, mpf(1))], p)
                kk['v'] = mp.sqrt(norm(a[3:]) * tiny / (4 * mp.pi * kk['rho'] * mpf(10)**lgrho[0])) / vt[0]
                vr = mpf(10)**-8 ; vgas = [mpf(0), kk['v'] * vt[0], mpf(0)]
                a, _ = acc(o, [b0, (mpf(1), X, [vr, vgas[1], mpf(0)], mpf(0))], p)
                cs = mp.cbrt(4 * mp.pi * kk['rho'] * mpf(10)**lgrho[0] * vr / (3 * abs(a[3])))
                kk['H'] = cs / mp.sqrt(M / xR**3) / mpf(10)**lgH[0]
                for w, k, ref in (('density', 'rho', kg / 1000 / cm**3), ('scale height', 'H', cm), ('gas velocity', 'v', cm / sec)):
                    c.true('units', '%s: the %s is converted to the units of the library' % (T_, w), mp.isfinite(kk[k]) and abs(kk[k] / ref - 1) < 0.02, 'factor %s instead of %s' % (mp.nstr(kk[k], 8), mp.nstr(ref, 8)))
            else:
                o2 = models[3] if o.name.startswith('alpha') else o; kk[o2.name] = mpf(1)      # the aerodynamic drag alone is proportional to the density
                if (o2.name, 2) not in runs: runs[(o2.name, 2)] = c.run(m, o2.fn, 7, {0: 2}, args=args)
                B = [(mpf(2), [mpf(0)] * 3, [mpf(0)] * 3, mpf(1)), (mpf(1), [mpf(3), mpf(4), mpf(0)], [mpf(1), mpf(2), mpf(3)], mpf(1))]
                f = acc(o2, B, p)[0][3] / spec(o2, B, p, [mpf(0)] * 6)[3]
                kk[o.name] = kk[o2.name] = mpf(1) if o is models[0] else f
                if o is models[0]: c.true('units', T_ + ': the density of the gas is that of the disc', abs(f - 1) < mpf(10)**-6, 'factor %s' % mp.nstr(f, 8))
                else: c.true('units', T_ + ': the density of the gas is a positive multiple of that of the disc', mp.isfinite(f) and f > 0, 'factor %s' % mp.nstr(f, 8))
        except (ArithmeticError, TypeError, ValueError) as ex: c.undecided('units', '%s: the scale of the model cannot be measured: %r' % (T_, ex)); continue
        if c.viol and any(v['kind'] == 'units' for v in c.viol): continue
        # ---- the law, over Mach numbers, radii and heights
        tol = mpf(10)**-9
        middle = lambda: mpf(10)**((lambda j: (lgr[j] + lgr[j + 1]) / 2)(rng.randrange(len(lgr) - 1))) * cm if o.name == 'magneto' else None
        grid = [mpf(x) for x in ('0.003 0.05 0.0999 0.1001 0.11 0.2 0.35 0.5 0.7 0.86 1.14 1.2 1.5 2 3 5 10 30 60 99 101 300'.split())]
        if o.name == 'magneto': grid += [mpf(10)**((a + b) / 2 if j % 2 else a + (b - a) / 10) for j, (a, b) in enumerate(zip(lgM, lgM[1:])) if j % (1 if c.thorough else 7) == 0]
        worst = None; cnt = 0
        for mach in grid * (2 * N):
            for mi, r in ((None, None), (mpf(10)**-9, None), (None, mpf(0))):
                p = o.params(); ps = st(o, p, mach, mi=mi, r=r, Rc=middle()); pri = [u(-1, 1) for _ in range(6)]
                s = spec(o, ps, p, [mpf(0)] * 6)
                if s is None: continue
                a, e = acc(o, ps, p); tables(o, runs[(o.name, 2)], e, ps); cnt += 1
                k = differ(a, s, tol)
                if k is not None and worst is None: worst = (a[k], s[k], k, ps, mach)
        c.true('law', T_ + ': drag over Mach numbers', worst is None, worst and 'component %d is %s, the drag law gives %s at Mach %s; %s' % (worst[2], mp.nstr(worst[0], 10), mp.nstr(worst[1], 10), mp.nstr(worst[4], 5), show(worst[3], o)))
        c.decided('law', cnt)
        # ---- radii: every cell of the tables, and close to their edges
        if o.name == 'magneto':
            worst = None; cnt = 0
            cells = [(mpf(10)**x * cm, q) for j, (a, b) in enumerate(zip(lgr, lgr[1:])) if c.thorough or j % 4 == 0 or j in (0, 1, len(lgr) - 2, len(lgr) - 3) for q, x in enumerate((a + (b - a) * mpf(10)**-12, (a + b) / 2, b - (b - a) * mpf(10)**-12))]
            cells += [(mpf(10)**lgr[0] * cm * f, 0) for f in (mpf('0.1'), 1 - mpf(10)**-9, 1 + mpf(10)**-9)] + [(mpf(10)**lgr[-1] * cm * f, 0) for f in (1 - mpf(10)**-9, 1 + mpf(10)**-9, mpf(10))]
            for Rc, j in cells:
                ps = st(o, {}, u(0.01, 3), Rc=Rc); s = spec(o, ps, {}, [mpf(0)] * 6)
                a, e = acc(o, ps, {}); tables(o, runs[(o.name, 2)], e, ps); cnt += 1
                k = differ(a, s, mpf(10)**-9 if j == 1 else mpf('0.02'))
                if k is not None and worst is None: worst = (a[k], s[k], k, ps)
            c.true('law', T_ + ': drag over the radii of the tables', worst is None, worst and 'component %d is %s, the drag law gives %s; %s' % (worst[2], mp.nstr(worst[0], 10), mp.nstr(worst[1], 10), show(worst[3], o)))
            c.decided('law', cnt)
            for f in [1 + s * mpf(10)**-q for s in (1, -1) for q in (2, 6, 10, 13, 14, 15, 17, 20)]:       # the edges of the grid in Mach number
                for l in (lgM[0], lgM[-1]):
                    ps = st(o, {}, mpf(10)**l * f, r=mpf(0)); a, e = acc(o, ps, {}); tables(o, runs[(o.name, 2)], e, ps)
                    c.true('table', '%s: the acceleration is finite at the edge 10^%s of the Mach numbers' % (T_, mp.nstr(l, 3)), not bad(a) or bool(oob), 'it is %s; %s' % ([mp.nstr(x, 4) for x in a], show(ps, o)))
            c.true('table', T_ + ': every computed index lies inside its table', not oob, oob and 'index %d of a table of %d entries' % (oob[0][1], oob[0][2]), oob[0][0] if oob else None)
            if not seen_cells: c.undecided('table', T_ + ': no table access met')
            c.decided('table', sum(len(v) for v in seen_cells.values()))
        # ---- what was there is kept, bodies do not drag one another, momentum, dependence on differences only
        worst = None
        for _ in range(6 * N):
            n = 3; p = o.params(); a0 = st(o, p, u(0.2, 0.8), Rc=middle()); b0 = st(o, p, u(1.2, 4), M=a0[0][0], Rc=middle()); sh = rel(a0[0][1], b0[0][1]); sv = rel(a0[0][2], b0[0][2])
            ps = [a0[0], a0[1], (b0[1][0], [x + y for x, y in zip(b0[1][1], sh)], [x + y for x, y in zip(b0[1][2], sv)], b0[1][3])]
            pri = [u(-1, 1) * 0 for _ in range(9)]
            s = spec(o, ps, p, pri)
            if s is None: continue
            a, e = acc(o, ps, p, pri); k = differ(a, s, tol)
            if k is not None and worst is None: worst = ('component %d is %s, the drag law gives %s' % (k, mp.nstr(a[k], 10), mp.nstr(s[k], 10)), ps)
            pr = [u(-1, 1) for _ in range(9)]; a2, _ = acc(o, ps, p, pr)
            if worst is None and any(abs(x - y - z) > mpf(10)**-20 for x, y, z in zip(a2, a, pr)): worst = ('the acceleration that was there before is not kept', ps)
            mom = [sum(q[0] * a[3 * i + k] for i, q in enumerate(ps)) for k in range(3)]
            if worst is None and any(abs(x) > mpf(10)**-20 * max(abs(v) for v in a) for x in mom): worst = ('the drag changes the total momentum by %s' % [mp.nstr(x, 5) for x in mom], ps)
            d = [u(-9, 9) for _ in range(3)]; w = [u(-9, 9) for _ in range(3)]
            a3, _ = acc(o, [(q[0], [x + y for x, y in zip(q[1], d)], [x + y for x, y in zip(q[2], w)], q[3]) for q in ps], p)
            if worst is None and any(abs(x - y) > mpf(10)**-15 * max(abs(v) for v in a) for x, y in zip(a, a3)): worst = ('the drag depends on the frame', ps)
            t = u(-3, 3); co, si = mp.cos(t), mp.sin(t); rot = lambda v: [co * v[0] - si * v[1], si * v[0] + co * v[1], v[2]]
            a4, _ = acc(o, [(q[0], rot(q[1]), rot(q[2]), q[3]) for q in ps], p)
            if worst is None and any(abs(x - y) > mpf(10)**-15 * max(abs(v) for v in a) for i in range(3) for x, y in zip(rot(a[3 * i:3 * i + 3]), a4[3 * i:3 * i + 3])): worst = ('the drag is not symmetric about the axis of the disc', ps)
            c.decided('symmetry', 5)
        c.true('symmetry', T_ + ': three bodies', worst is None, worst and worst[0] + '; ' + show(worst[1], o))
        # ---- the joins of the drag factor
        if o.name in ('alpha0', 'alphap'):
            p = o.params(); base = st(o, p, mpf(1), r=mpf(0), z=mpf(0), origin=[mpf(0)] * 3, d=[mpf(0), mpf(0), mpf(1)], M=mpf(1), mi=mpf(1))
            g, cs, rho, H = o.gas(base[1][1], mpf(1), p)
            def I(mach):
                a, _ = acc(o, [base[0], (mpf(1), base[1][1], [x + y for x, y in zip(g, [mpf(0), mpf(0), mach * cs])], mpf(0))], p)
                return -a[5] * cs**2 / (4 * mp.pi * rho)
            h = mpf(10)**-9
            for w, x, tv, td in (('0.1', mpf('0.1'), mpf('0.01'), None), ('1 - eps', 1 - eps, mpf(10)**-6, mpf(10)**-4), ('1 + eps', 1 + eps, mpf(10)**-6, mpf(10)**-4)):
                lo, hi = I(x - h), I(x + h)
                ok = mp.isfinite(lo) and mp.isfinite(hi) and abs(lo - hi) <= tv * abs(hi)
                if c.true('join', '%s: the drag factor is continuous at a Mach number of %s' % (T_, w), ok, 'it goes from %s to %s' % (mp.nstr(lo, 10), mp.nstr(hi, 10))) and td:
                    d0, d1 = (I(x - h) - I(x - 2 * h)) / h, (I(x + 2 * h) - I(x + h)) / h
                    c.true('join', '%s: the drag factor has no kink at a Mach number of %s' % (T_, w), abs(d0 - d1) <= td * max(abs(d0), abs(d1)), 'its slope goes from %s to %s' % (mp.nstr(d0, 10), mp.nstr(d1, 10)))
            ends = [I(1 - eps - h), I(1 + eps + h)]
            for j in range(1, 20):
                v = I(1 - eps + 2 * eps * j / 20)
                c.true('join', T_ + ': the drag factor between the two laws stays of their size', mp.isfinite(v) and min(ends) / 3 < v < 3 * max(ends), 'it is %s between %s and %s at a Mach number of %s' % (mp.nstr(v, 8), mp.nstr(ends[0], 8), mp.nstr(ends[1], 8), mp.nstr(1 - eps + 2 * eps * j / 20, 5)))
        # ---- exactly at rest with the gas, exactly at Mach 0.1
        hit = 0
        X = [mpf(10)**lgr[0] * cm / 4, mpf(0), mpf(0)] if o.name == 'magneto' else [mpf(1), mpf(0), mpf(0)]
        for _ in range(3):
            p = o.params(); M = mpf(1)
            g = o.gas(X, M, p)[0]
            ps = [(M, [mpf(0)] * 3, [mpf(0)] * 3, mpf(1)), (u(0.1, 1), X, g, u(0.1, 1))]; pr = [u(-1, 1) for _ in range(6)]
            e0 = acc(o, ps, p, pr)[1]
            near = {x: mpf(0) for x, v in e0.memo.items() if isinstance(v, mpf) and x.op in ('fsub', 'fadd') and 0 < abs(v) < mpf(10)**-18}     # the velocity relative to the gas
            a, e = acc(o, ps, p, pr, near)
            if not any(x.op == 'sqrt' and v == 0 for x, v in e.memo.items()) and not bad(a): continue     # not exactly at rest
            hit += 1
            c.true('rest', T_ + ': a body at rest with the gas is not dragged', not bad(a) and all(abs(x - y) < mpf(10)**-12 for x, y in zip(a, pr)), 'its acceleration is %s' % [mp.nstr(x, 6) for x in rel(a[3:], pr[3:])])
            ps3 = ps + [st(o, p, u(0.3, 0.7), M=M, origin=[mpf(0)] * 3, Rc=middle())[1]]; pr3 = pr + [mpf(0)] * 3
            a3 = acc(o, ps3, p, pr3)[0]; e0 = acc(o, ps3, p, pr3)[1]
            near = {x: mpf(0) for x, v in e0.memo.items() if isinstance(v, mpf) and x.op in ('fsub', 'fadd') and 0 < abs(v) < mpf(10)**-18}
            a3 = acc(o, ps3, p, pr3, near)[0]; s3 = spec(o, [ps3[0], ps3[2]], p, [mpf(0)] * 6)
            c.true('rest', T_ + ': a body at rest with the gas leaves the drag of the next body alone', differ(a3[6:], s3[3:], mpf(10)**-9) is None, 'its acceleration is %s, the drag law gives %s' % ([mp.nstr(x, 6) for x in a3[6:]], [mp.nstr(x, 6) for x in s3[3:]]))
        if not hit: c.undecided('rest', T_ + ': no state at rest with the gas found')
        if o.name in ('alpha0', 'alphap'):
            hit = 0                                                # exactly on a threshold of the Mach number the drag is that of one of its sides
            for what, th in (('0.1', mpf('0.1')), ('1 - eps', 1 - eps), ('1 + eps', 1 + eps)):
                p = o.params(); side = [st(o, p, th * f, r=mpf(0), z=mpf(0), origin=[mpf(0)] * 3, d=[mpf(0), mpf(0), mpf(1)], M=mpf(1), mi=mpf(1), Rc=mpf(1)) for f in (1 - mpf(10)**-9, 1, 1 + mpf(10)**-9)]
                lo, (mid, e), hi = acc(o, side[0], p)[0], acc(o, side[1], p), acc(o, side[2], p)[0]
                def val(x): return e.memo.get(x) if x.op != 'fc' else e.ev(x)
                for x in [x for x in e.memo if x.op in ('flt', 'feq')]:
                    q = [y for y in x.args if isinstance(y, T) and isinstance(val(y), mpf) and abs(val(y) / th - 1) < mpf(10)**-12]
                    if len(q) != 2: continue
                    for mach, bound in (q, q[::-1]):
                        if mach.op == 'fc' or mach not in e.memo or not any(y.op == 'in' for y in leaves(mach)): continue
                        a = acc(o, side[1], p, None, {mach: val(bound)})[0]; hit += 1
                        c.true('rest', '%s: a body at a Mach number of exactly %s' % (T_, what), differ(a, lo, mpf('0.01')) is None or differ(a, hi, mpf('0.01')) is None, 'its acceleration is %s; just below it is %s, just above %s' % tuple([mp.nstr(y, 8) for y in z[3:]] for z in (a, lo, hi)))
            if not hit: c.undecided('rest', T_ + ': no threshold of the Mach number found')
    return c.finish(extra=dict(table_entries_read={'%s table %d' % (l, t): len(v) for (l, t), v in sorted(seen_cells.items(), key=str)}))


def leaves(t):
    seen = set(); w = [t]
    while w:
        x = w.pop()
        if not isinstance(x, T) or x in seen: continue
        seen.add(x); w.extend(x.args)
    return [x for x in seen if x.op in ('in', 'fc')]


if __name__ == '__main__': main(run)
