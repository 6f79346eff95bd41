from hx import *
import numpy as np
import p24
F = Fraction
NM = 'm1 m2 p e i Omega omega nu'.split()


def spec_coord(u, p, e, i, Om, om, nu):
    """relative position and velocity of the elements; the argument of periapsis is measured to the direction opposite to the relative position at periapsis"""
    r = p / (1 + e * cos(nu)); v = sqrt(u / p)
    def rot(x, y):
        x, y = x * cos(om) - y * sin(om), x * sin(om) + y * cos(om)
        y, z = y * cos(i), y * sin(i)
        return V(-(x * cos(Om) - y * sin(Om)), -(x * sin(Om) + y * cos(Om)), -z)
    return rot(r * cos(nu), r * sin(nu)), rot(-v * sin(nu), v * (e + cos(nu)))


def run():
    c = Check('P21', 'Orbit conversions', 'value graphs of the conversions between elements, coordinates and anomalies against the geometry of the conic, every conic, orientation and degenerate case; '
              'the equations handed to the root finder are checked by their roots and brackets', min_obl=1500)
    m = c.compile('orbits.cpp')
    I = lambda k: inp('in[%d]' % k)

    def gen(kind):
        """draws of valid input: kind of conic, or free coordinates"""
        def g(nm, typ, rng):
            mm = re.match(r'in\[(\d+)\]', nm)
            if not mm: return None
            k = int(mm.group(1))
            if k in (0, 1, 2, 16, 17, 19): return pit.rnd(rng, 0.3, 3)
            if k == 3: return pit.rnd(rng, 0.02, 0.97) if kind == 'e' else pit.rnd(rng, 1.05, 4)
            if k == 4: return pit.rnd(rng, 0.05, 3.1)
            if k in (5, 6): return pit.rnd(rng, -3.1, 3.1)
            if k == 7: return pit.rnd(rng, -3.1, 3.1) if kind != 'h' else pit.rnd(rng, -1.7, 1.7)
            if k == 8: return pit.rnd(rng, -3.1, 3.1)
            if k == 18: return pit.rnd(rng, 6, 20)
            return None
        def dom(nm):
            mm = re.match(r'in\[(\d+)\]', nm); k = int(mm.group(1)) if mm else -1
            if k in (0, 1, 2, 16, 17, 19): return 0, None
            if k == 3: return (0, 1) if kind == 'e' else (1, None)
            if k == 4: return 0, mpf('3.14159')
            if k in (5, 6, 8) or k == 7 and kind != 'h': return mpf('-3.14159'), mpf('3.14159')
        g.dom = dom
        return g
    CON = (('ellipse', 'e', {}), ('hyperbola', 'h', {}), ('circle', 'e', {3: F(0)}), ('parabola', 'p', {3: F(1)}))
    n = 16 if c.thorough else 6

    def o2c(cn, kd, fx):
        R = c.run(m, 'o2c', 24, fx)
        nm = 'elements of %s' % cn
        if not c.usable(R, 'coordinates', nm): return
        e = E(fx[3]) if 3 in fx else I(3)
        x = [I(k) for k in range(8)]; x[3] = e
        d, v = spec_coord(x[0] + x[1], x[2], e, x[4], x[5], x[6], x[7])
        for w, o in (('reference form', 0), ('returning form', 6)):
            for k, (q, s) in enumerate((('position', y) for y in d)): c.eq('coordinates', '%s, %s: %s %s' % (nm, w, q, 'xyz'[k]), c.out(R, o + k), s, gen=gen(kd), n=n)
            for k, s in enumerate(v): c.eq('coordinates', '%s, %s: velocity %s' % (nm, w, 'xyz'[k]), c.out(R, o + 3 + k), s, gen=gen(kd), n=n)
        for k in range(8): c.eq('elements', '%s: stored %s' % (nm, NM[k]), c.out(R, 12 + k), x[k], gen=gen(kd), n=n)
        c.eq('elements', nm + ': kind of conic', c.out(R, 20), E({'e': 0, 'p': 1, 'h': 2}[kd]), gen=gen(kd), n=n)

    def c2o(cn, kd, fx, g):
        R = c.run(m, 'c2o', 24, fx)
        nm = 'coordinates on %s' % cn
        if not c.usable(R, 'inversion', nm): return
        x = lambda k: E(fx[k]) if k in fx else I(k)
        u = x(0) + x(1); d = V(x(10), x(11), x(12)); v = V(x(13), x(14), x(15)); L = d.cross(v)
        ev = (d * (v.norm2() - u / d.norm()) - v * d.dot(v)) / u
        envs = []
        for w, o in (('reference form', 0), ('returning form', 9)):
            el = [c.out(R, o + k) for k in range(9)]
            if any(z is UNDEF for z in el): c.violation('inversion', '%s, %s' % (nm, w), 'elements %s are never written' % [NM[k] for k in range(8) if el[k] is UNDEF]); continue
            el = [E(z) for z in el]
            kw = dict(gen=g, n=n, envs=envs)
            c.eq('inversion', '%s, %s: first mass' % (nm, w), el[0], x(0), **kw); c.eq('inversion', '%s, %s: second mass' % (nm, w), el[1], x(1), **kw)
            c.eq('inversion', '%s, %s: semi-latus rectum' % (nm, w), el[2], L.norm2() / u, **kw)
            c.eq('inversion', '%s, %s: eccentricity' % (nm, w), el[3], ev.norm(), **kw)
            if kd in 'eph': c.eq('inversion', '%s, %s: kind of conic' % (nm, w), el[8], E({'e': 0, 'p': 1, 'h': 2}[kd]), **kw)
            else: c.eq('inversion', '%s, %s: kind of conic' % (nm, w), el[8], where(ev.norm2() < 1, 0, 2), **kw)
            sd, sv = spec_coord(el[0] + el[1], el[2], el[3], el[4], el[5], el[6], el[7])
            if kd == 'x': continue
            for q, a, b in (('position', sd, d), ('velocity', sv, v)):
                for k in range(3): c.eq('inversion', '%s, %s: %s %s of the elements returned' % (nm, w, q, 'xyz'[k]), a[k], b[k], tol='1e-12', scale=mpf('0.1'), **kw)
            lim = E(F(355, 113))   # a little above pi
            for k, lo in ((4, E(0)), (5, -lim), (6, -lim), (7, -lim)):
                c.eq('inversion', '%s, %s: range of %s' % (nm, w, NM[k]), where(Bo(vg.band((el[k] >= lo).t, (el[k] <= lim).t)), 1, 0), E(1), **kw)

    def anomalies(cn, kd, fx):
        e = E(fx[3]) if 3 in fx else I(3)
        g = gen(kd)
        def gt(nm, typ, rng):
            # true anomaly inside the asymptotes
            if nm == 'in[8]' and kd == 'h': return pit.rnd(rng, -1.75, 1.75)
            return g(nm, typ, rng)
        def half(f, E_):
            """tan(f/2) of an eccentric anomaly"""
            return sqrt((1 + e) / (1 - e)) * tan(E_ / 2) if kd == 'e' else sqrt((e + 1) / (e - 1)) * tanh(E_ / 2) if kd == 'h' else E_
        def kepler(E_): return E_ - e * sin(E_) if kd == 'e' else e * sinh(E_) - E_ if kd == 'h' else E_ + E_ * E_ * E_ / 3
        def inv(f): return 2 * atan(sqrt((1 - e) / (1 + e)) * tan(f / 2)) if kd == 'e' else 2 * fn('atanh')(sqrt((e - 1) / (e + 1)) * tan(f / 2)) if kd == 'h' else tan(f / 2)
        A = I(8)
        for fnm, what, spec, gg in (('e2t', 'true from eccentric anomaly', lambda: 2 * atan(half(None, A)), g), ('t2e', 'eccentric from true anomaly', lambda: inv(A), gt),
                                    ('e2m', 'mean from eccentric anomaly', lambda: kepler(A), g), ('t2m', 'mean from true anomaly', lambda: kepler(inv(A)), gt)):
            R = c.run(m, fnm, 2, fx)
            if c.usable(R, 'anomaly', '%s: %s' % (cn, what)):
                c.eq('anomaly', '%s: %s' % (cn, what), c.out(R, 0), spec(), gen=gg, n=2 * n)
        # anomalies beyond half a turn keep their branch (ellipse)
        if kd == 'e':
            def far(nm, typ, rng): return pit.rnd(rng, 3.3, 6.2) * rng.choice((1, -1)) if nm == 'in[8]' else g(nm, typ, rng)
            for fnm, a, b in (('e2t', lambda y: tan(y / 2), lambda: half(None, A)), ('t2e', lambda y: half(None, y), lambda: tan(A / 2))):
                R = c.run(m, fnm, 2, fx)
                if c.usable(R, 'anomaly', '%s: second half turn' % cn): c.eq('anomaly', '%s: %s beyond half a turn' % (cn, fnm), a(E(c.out(R, 0))), b(), gen=far, n=n)

    def equation(j):
        """Kepler's equation as handed to the root finder for one eccentricity and mean anomaly"""
        e, M, fnm = j
        nm = 'Kepler equation, eccentricity %s, mean anomaly %s' % (e, M)
        R = c.run(m, fnm, 2, {3: e, 8: M})
        if not c.usable(R, 'Kepler equation', nm): return
        K = (lambda x: x - e_ * pit.mpmath.sin(x)) if e < 1 else (lambda x: e_ * pit.mpmath.sinh(x) - x) if e > 1 else (lambda x: x + x**3 / 3)
        e_ = mpf(e.numerator) / e.denominator; M_ = mpf(M.numerator) / M.denominator
        lo, hi = -mpf(1), mpf(1)
        while K(lo) > M_: lo *= 2
        while K(hi) < M_: hi *= 2
        for _ in range(170):
            mid = (lo + hi) / 2
            if K(mid) < M_: lo = mid
            else: hi = mid
        root = (lo + hi) / 2
        evs = [x for x in R.st.ev if x[0] == 'ev_root']
        env = pit.Env(c.rng)
        val = lambda t: env.ev(t.t if isinstance(t, E) else t)
        outv = E(c.out(R, 0))
        if not evs:
            v = val(outv)
            if fnm == 'm2e': c.true('Kepler equation', nm, abs(v - root) <= mpf(10)**-8 * (1 + abs(root)), 'eccentric anomaly %s, the root is %s' % (pit.mpmath.nstr(v, 12), pit.mpmath.nstr(root, 12)))
            return
        if len(evs) > 1: c.undecided('Kepler equation', nm + ': several equations'); return
        fx, x, low, high, fl, fh = evs[0][1]; loc = evs[0][2]
        def at(v):
            en = pit.Env(c.rng); en.memo[x] = v; return en.ev(fx)
        d = mpf(10)**-7 * (abs(root) + mpf(10)**-3)
        a, b, z = at(root - d), at(root + d), at(root)
        c.true('Kepler equation', nm + ': the equation solved', a * b < 0 and abs(z) < (abs(a) + abs(b)) * mpf(10)**-12, 'the function given to the root finder is %s at the root %s of the equation (%s and %s beside it)' %
               tuple(pit.mpmath.nstr(q, 10) for q in (z, root, a, b)), loc)
        l, h = val(low), val(high); sl = mpf(10)**-14 * abs(root)
        c.true('Kepler equation', nm + ': the bracket', min(l, h) - sl <= root <= max(l, h) + sl and (val(fl) * val(fh) <= 0 or min(abs(root - l), abs(root - h)) <= sl), 'the bracket %s to %s misses the root %s' % tuple(pit.mpmath.nstr(q, 10) for q in (l, h, root)), loc)
        rootleaf = [y for y in leaves(outv.t, 'uf:root')]
        if not rootleaf: c.violation('Kepler equation', nm + ': the root returned', 'the value returned does not depend on the root found: %s' % vg.show(outv.t, 4), loc); return
        r0 = E(rootleaf[0])
        if fnm == 'm2e': c.eq('Kepler equation', nm + ': the root returned', outv, r0)
        else: c.eq('Kepler equation', nm + ': true anomaly of the root', tan(outv / 2), sqrt((1 + E(e)) / (1 - E(e))) * tan(r0 / 2) if e < 1 else sqrt((E(e) + 1) / (E(e) - 1)) * tanh(r0 / 2) if e > 1 else r0)

    def rounding():
        """the conversion in the arithmetic of the machine: at an apse, on the line of nodes and in a plane the cosines of the angles are 1 up to rounding, which must not leave the domain of their inverse"""
        old = vg.STRICT[0]; vg.STRICT[0] = True
        try: R = c.run(m, 'c2o', 24)
        finally: vg.STRICT[0] = old
        if not c.usable(R, 'rounding', 'coordinates to elements'): return
        el = [c.out(R, k) for k in range(8)]; rng = c.rng
        def u(a=0.3, b=3): return float(rng.uniform(a, b)) * rng.choice((1, -1))
        def states():
            for _ in range(60 * (4 if c.thorough else 1)):
                x, y, z, k = u(), u(), u(), u(0.2, 1.5)
                yield 'at an apse', (x, y, z), (-k * y, k * x, 0.0)
                yield 'at an apse', (x, y, z), (0.0, -k * z, k * y)
                yield 'at an apse in the plane', (x, y, 0.0), (-k * y, k * x, 0.0)
                yield 'at an apse on the x axis', (x, 0.0, 0.0), (0.0, y, z)
                yield 'at an apse on the line of nodes', (x, y, 0.0), (-k * y, k * x, z)
                yield 'in the plane', (x, y, 0.0), (u(), u(), 0.0)
                yield 'in the xz plane', (x, 0.0, z), (u(), 0.0, u())
                yield 'anywhere', (x, y, z), (u(), u(), u())
                yield 'nearly radial', (x, y, z), (k * x, k * y, k * z * (1 + 1e-9))
        bad = {}; cnt = 0
        for what, d, v in states():
            L = (d[1] * v[2] - d[2] * v[1], d[2] * v[0] - d[0] * v[2], d[0] * v[1] - d[1] * v[0])
            if not any(L): continue
            I_ = p24.Ieee({**{'in[%d]' % k: np.float64(.7) for k in range(30, 38)}, **{'in[%d]' % k: np.float64(w) for k, w in zip((0, 1) + tuple(range(10, 16)), (abs(u()), abs(u())) + d + v)}})
            with np.errstate(all='ignore'):
                for k, t in enumerate(el):
                    if t is UNDEF: continue
                    w = I_.lift(I_.ev(t), np.float64) if isinstance(t, T) else float(t)
                    cnt += 1
                    if not np.isfinite(w) and k not in bad: bad[k] = (what, d, v, w, tloc(t))
        for k in range(8): c.true('rounding', 'coordinates to elements: %s stays finite' % NM[k], k not in bad, k in bad and '%s: it is %s for a body %s at %s with velocity %s' % (NM[k], bad[k][3], *bad[k][:3]), bad.get(k, (None,) * 5)[4])
        c.decided('rounding', cnt)

    def leaves(t, op):
        seen = set(); w = [t]; r = []
        while w:
            q = w.pop()
            if not isinstance(q, T) or q in seen: continue
            seen.add(q)
            if q.op == op: r.append(q)
            w.extend(q.args)
        return r

    def other(w):
        if w == 'ell':
            R = c.run(m, 'ell', 16)
            if not c.usable(R, 'construction', 'elliptic orbit'): return
            sp = [I(0), I(1), I(19) * (1 - I(3) * I(3)), I(3), I(4), I(5), I(6), I(7), E(0), I(19)]
            for k, s in enumerate(sp): c.eq('construction', 'elliptic orbit: %s' % (NM + ['kind', 'semi-major axis'])[k], c.out(R, k), s, gen=gen('e'), n=n)
        elif w in ('hypi', 'hypo'):
            R = c.run(m, w, 16)
            if not c.usable(R, 'construction', 'hyperbolic orbit'): return
            u = I(0) + I(1); a = -u / (I(16) * I(16)); e = sqrt(1 + I(17) * I(17) / (a * a)); p = (I(16) * I(17))**2 / u
            nu = acos((p - I(18)) / (e * I(18)))
            sp = [I(0), I(1), p, e, I(4), I(5), I(6), -nu if w == 'hypi' else nu, E(2), I(17)]
            for k, s in enumerate(sp): c.eq('construction', 'hyperbolic orbit, %s: %s' % ('incoming' if w == 'hypi' else 'outgoing', (NM + ['kind', 'impact parameter'])[k]), c.out(R, k), s, gen=gen('h'), n=n)
        elif w == 'calc':
            R = c.run(m, 'calc', 24)
            if not c.usable(R, 'helpers', 'orbit helpers'): return
            d = V(I(10), I(11), I(12)); v = V(I(13), I(14), I(15))
            rl = lambda u: (d * (v.norm2() - u / d.norm()) - v * d.dot(v)) / u
            sa = lambda u: 1 / (2 / d.norm() - v.norm2() / u)
            u = I(0); U = I(0) + I(1); L = d.cross(v) * (I(0) * I(1) / U)
            sp = [*rl(u), *L, rl(u).norm(), sa(u), sa(u), rl(u).norm(), sa(u), *rl(u), sa(U), *rl(U), *L, I(19) * (1 - I(3) * I(3))]
            nms = ['Laplace-Runge-Lenz vector'] * 3 + ['angular momentum'] * 3 + ['eccentricity', 'semi-major axis', 'semi-major axis (pair)', 'eccentricity (pair)', 'semi-major axis (with vector)'] + ['eccentricity vector'] * 3 + ['semi-major axis (with momentum)'] + ['eccentricity vector (with momentum)'] * 3 + ['angular momentum (with vector)'] * 3 + ['semi-latus rectum']
            for k, s in enumerate(sp): c.eq('helpers', '%s [%d]' % (nms[k], k), c.out(R, k), s, gen=gen('e'), n=n)
        elif w == 'period':
            for f, a in (('perk', I(2) / (1 - I(3) * I(3))), ('pera', I(19))):
                R = c.run(m, f, 2)
                if c.usable(R, 'helpers', 'period'): c.eq('helpers', 'period (%s)' % f, c.out(R, 0), 2 * E(F(314159265358979323846264338327950288, 10**35)) * sqrt(a * a * a / (I(0) + I(1))), gen=gen('e'), n=n)
            R = c.run(m, 'pera', 2, {19: F(-1)})
            c.true('refusal', 'period of an orbit that is not an ellipse', R.dead, 'accepted')
        elif w == 'time':
            for cn, kd, fx in CON:
                R = c.run(m, 'times', 2, fx)
                if not c.usable(R, 'helpers', 'time to periapsis, ' + cn): continue
                e = E(fx[3]) if 3 in fx else I(3); u = I(0) + I(1); a = I(2) / (1 - e * e) if kd != 'p' else None
                f = I(7)
                if kd == 'e': Ea = 2 * atan(sqrt((1 - e) / (1 + e)) * tan(f / 2)); t = sqrt(a * a * a / u) * (Ea - e * sin(Ea))
                elif kd == 'h': H = 2 * fn('atanh')(sqrt((e - 1) / (e + 1)) * tan(f / 2)); t = -sqrt(-a * a * a / u) * (e * sinh(H) - H)
                else: D = tan(f / 2); t = -sqrt(I(2)**3 / u) / 2 * (D + D * D * D / 3)
                o = E(c.out(R, 0))
                c.eq('helpers', 'time to periapsis, ' + cn, fabs(o) if kd == 'e' else o, fabs(t) if kd == 'e' else t, gen=gen(kd), n=n)
            for e, s in ((F(1, 2), sqrt(I(19)**3 / I(0)) * I(8)), (F(1), sqrt(I(19)**3 / I(0)) * I(8) / 2), (F(2), None)):
                R = c.run(m, 'timesu', 2, {3: e})
                if s is None:
                    def gn(nm, typ, rng): return pit.rnd(rng, -3, -0.3) if nm == 'in[19]' else pit.rnd(rng, 0.3, 3) if nm == 'in[0]' else None
                    s = sqrt(-I(19)**3 / I(0)) * I(8)
                else: gn = gen('e')
                if c.usable(R, 'helpers', 'time of a mean anomaly'): c.eq('helpers', 'time of a mean anomaly, eccentricity %s' % e, fabs(E(c.out(R, 0))), fabs(s), gen=gn, n=n)
        elif w == 'kind':
            for e, k in ((F(0), 0), (F(1, 2), 0), (F(999999, 1000000), 0), (F(1), 1), (F(1000001, 1000000), 2), (F(50), 2), (F(-1), 3), (F(-1, 1000), 3), (vg.fc('nan'), 3)):
                R = c.run(m, 'kind', 2, {3: e})
                if c.usable(R, 'kind', 'kind of conic, eccentricity %s' % (e,)): c.eq('kind', 'kind of conic, eccentricity %s' % (e if isinstance(e, F) else 'NaN',), c.out(R, 0), E(k), need=1)
        elif w == 'bad':
            for f, fx, what in (('badp', {2: F(0), 3: F(1, 2)}, 'zero semi-latus rectum'), ('badp', {2: F(-1), 3: F(1, 2)}, 'negative semi-latus rectum'), ('badp', {2: F(1), 3: F(-1, 2)}, 'negative eccentricity'),
                                ('badp', {2: F(1), 3: vg.fc('nan')}, 'eccentricity that is not a number'), ('bade', {19: F(-1), 3: F(2)}, 'elliptic orbit with the elements of a hyperbola'), ('bade', {19: F(-1), 3: F(1, 2)}, 'elliptic orbit with a negative axis'),
                                ('e2t', {3: F(-1, 2), 8: F(1)}, 'anomaly of a negative eccentricity'), ('t2e', {3: F(-1, 2), 8: F(1)}, 'anomaly of a negative eccentricity'), ('e2m', {3: F(-1, 2), 8: F(1)}, 'anomaly of a negative eccentricity'),
                                ('m2e', {3: F(-1, 2), 8: F(1)}, 'anomaly of a negative eccentricity'), ('t2e', {3: F(2), 8: F(3)}, 'true anomaly beyond the asymptote')):
                R = c.run(m, f, 16, fx)
                if R.und: c.undecided('refusal', '%s (%s): %s' % (what, f, R.und)); continue
                # a decision that rests on an irrational constant: the path condition of the failure exit is evaluated
                c.true('refusal', '%s is refused (%s)' % (what, f), R.dead or any(len(a[0]) and c.feasible(a[0], n=1) for a in R.st.aborts), 'control returns to the caller')
        elif w == 'bis':
            for co, lo, hi, rt in (((F(-1), F(3), F(0)), F(-2), F(5), F(1, 3)), ((F(1), F(3), F(0)), F(-2), F(5), F(-1, 3)), ((F(-2), F(1), F(1)), F(-9), F(9), F(1)), ((F(10), F(-1), F(-1)), F(-9), F(9), F(2)),
                                   ((F(-1000), F(1), F(0)), F(0), F(10**6), F(1000)), ((F(1000), F(1), F(0)), F(-10**6), F(0), F(-1000)), ((F(-1), F(1), F(0)), F(1), F(2), F(1)), ((F(-2), F(1), F(0)), F(1), F(2), F(2)), ((F(-1, 10**6), F(1), F(0)), F(-1), F(1), F(1, 10**6))):
                R = c.run(m, 'bis', 2, {0: co[0], 1: co[1], 2: co[2], 3: lo, 4: hi})
                nm = 'root of %s %+s x %+s x^3 in [%s, %s]' % (*co, lo, hi)
                if not c.usable(R, 'root finder', nm): continue
                v = c.out(R, 0)
                c.true('root finder', nm, vg.isfc(v) and abs(v.args[0] - rt) <= abs(rt) * F(1, 2**51), 'the value returned is %s, the root is %s' % (float(v.args[0]) if vg.isfc(v) else v, rt))

    def free(nm, typ, rng):
        if nm in ('in[0]', 'in[1]'): return pit.rnd(rng, 0.3, 3)
        return None
    def turning(e):                                        # radial motion has no orbital plane
        x = lambda k: mpf(e.vals.get('in[%d]' % k, 0))        # (coordinates fixed at 0 are not leaves)
        d = [x(10), x(11), x(12)]; v = [x(13), x(14), x(15)]
        return any(abs(d[i] * v[j] - d[j] * v[i]) > mpf(10)**-9 for i, j in ((0, 1), (1, 2), (0, 2)))
    free.ok = turning
    jobs = [('o', *k) for k in CON]
    jobs.append(('c', 'a generic conic', 'g', {}, free))
    jobs.append(('c', 'a generic planar conic', 'g', {12: F(0), 15: F(0)}, free))
    jobs.append(('c', 'a conic in the xz plane', 'g', {11: F(0), 14: F(0)}, free))
    jobs.append(('c', 'a conic in the yz plane', 'g', {10: F(0), 13: F(0)}, free))
    def fx(d, v, u=F(1), **kw): return {0: u / 4, 1: u * 3 / 4, **{10 + k: F(z) for k, z in enumerate(d)}, **{13 + k: F(z) for k, z in enumerate(v)}}
    a, b = F(3, 5), F(4, 5)
    for s in (1, -1):
        for d, v in (((a, b, 0), (-b, a, 0)), ((1, 0, 0), (0, 1, 0)), ((0, -1, 0), (1, 0, 0)), ((-a, b, 0), (b, a, 0)), ((1, 0, 0), (0, a, b)), ((0, 1, 0), (-a, 0, b)), ((a, b, 0), (0, 0, 1)), ((0, 0, 1), (a, b, 0)), ((-a, 0, b), (0, 1, 0)), ((0, a, -b), (1, 0, 0))):
            jobs.append(('c', 'the circle at %s with velocity %s' % (tuple(map(str, d)), tuple(str(s * z) for z in v)), 'e', fx(d, [s * z for z in v]), None))
        # parabolas: v^2 = 2 u / r
        for d, v, u in (((3, 4, 0), (F(2, 3), F(1, 3), F(2, 3)), F(5, 2)), ((3, 4, 0), (1, 0, 0), F(5, 2)), ((0, 0, 2), (a, b, 0), F(1)), ((2, 0, 0), (0, 1, 0), F(1)), ((2, 0, 0), (a, b, 0), F(1)), ((0, -2, 0), (a, 0, b), F(1)), ((2, 0, 0), (0, a, b), F(1)), ((1, 2, 2), (0, a, -b), F(3, 2))):
            jobs.append(('c', 'the parabola at %s with velocity %s' % (tuple(map(str, d)), tuple(str(s * z) for z in v)), 'p', fx(d, [s * z for z in v], u), None))
        # at an apse, and passing the line of nodes, exactly
        for d, v, u, kd in (((2, 0, 0), (0, s, 0), F(2), 'e'), ((2, 0, 0), (0, 0, s), F(3), 'e'), ((0, 3, 0), (s * 2, 0, 0), F(1), 'h'), ((0, 0, 2), (s, 0, 0), F(3), 'e'), ((a, b, 0), (s * 3, 0, 2), F(1), 'h'), ((-2, 0, 0), (s, 0, s), F(3), 'e'), ((2, 0, 0), (0, s * a, b), F(3), 'e'), ((0, -2, 0), (s, 0, 0), F(3), 'e')):
            jobs.append(('c', 'the conic at %s with velocity %s' % (tuple(map(str, d)), tuple(map(str, v))), kd, fx(d, v, u), None))
    jobs += [('a', *k) for k in CON]
    Ms = [F(1, 10**3), F(-1, 10**3), F(1, 2), F(-1, 2), F(3), F(-3), F(31, 5), F(-31, 5), F(20), F(-20), F(1000), F(-1000)]
    es = [F(0), F(1, 10), F(1, 2), F(9, 10), F(999, 1000), F(1), F(1001, 1000), F(3, 2), F(5), F(100)]
    jobs += [('k', (e, M, f)) for e in es for M in Ms for f in ('m2e', 'm2t')]
    jobs.append(('r',))
    jobs += [('x', w) for w in ('ell', 'hypi', 'hypo', 'calc', 'period', 'time', 'kind', 'bad', 'bis')]
    def job(j):
        {'o': o2c, 'c': c2o, 'a': anomalies, 'k': equation, 'x': other, 'r': rounding}[j[0]](*j[1:])
    c.parallel(jobs, job)
    return c.finish()
