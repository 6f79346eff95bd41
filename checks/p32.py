import variates
from hx import *
F = Fraction
from p22 import Pt, M, VC, EK, EP, size


def run():
    c = Check('P32', 'Scattering', 'value graphs of the scattering helpers on masses, single particles and clusters, with the random variates free, against their definitions', min_obl=90)
    m = c.compile('scatter.cpp')
    LG, icp, reset = variates.cut()
    I = lambda k: inp('in[%d]' % k); u = lambda k: E(mk('in', 'u[%d]' % k, 'f'))
    pi = E(F('3.14159265358979323846'))

    def go(f, fx=None, nout=10):
        reset(); return c.run(m, f, nout, fx or {}, intercepts=icp, max_steps=600000)

    def pos(names, lo=0.3, hi=3, **more):
        def g(nm, typ, rng):
            if nm[0] == 'u': return pit.rnd(rng, 0.02, 0.98)
            k = int(nm[3:-1])
            if 'in[%d]' % k in more: return pit.rnd(rng, *more['in[%d]' % k])
            return pit.rnd(rng, lo, hi) if k in names else None
        return g

    def one(f, what, spec, g):
        R = go(f)
        if c.usable(R, 'helper', what): c.eq('helper', what, c.out(R, 0), spec, gen=g)
    gp = pos(range(6), **{'in[2]': (-3, -0.3), 'in[3]': (-3, -0.3)})
    crit = lambda m1, m2, e1, e2: sqrt(-2 * (e1 + e2) * (m1 + m2) / (m1 * m2))
    bmax = lambda mt, v, rp: sqrt(rp * rp + 2 * mt * rp / (v * v))
    rt = lambda f, m1, m2, r1, r2: emax(powf(m1 / (f * m2), E(F(1, 3))) * r2, powf(m2 / (f * m1), E(F(1, 3))) * r1)
    one('crit', 'critical velocity: the total energy vanishes', crit(I(0), I(1), I(2), I(3)), gp)
    one('bmax', 'largest impact parameter: the periapsis of the hyperbola is the closest approach', bmax(I(0), I(1), I(2)), pos(range(6)))
    one('bmaxr', 'largest impact parameter of masses and sizes', bmax(I(0) + I(1), I(4), rt(I(5), I(0), I(1), I(2), I(3))), pos(range(6)))
    one('hard', 'hard radius: binding energy equals the kinetic energy of the surroundings', I(0) * I(1) / (I(2) * I(3) * I(3)), pos(range(6)))
    NM = ['m1', 'm2', 'p', 'e', 'i', 'Omega', 'omega', 'nu', 'hyperbolic']

    def orbit(what, R, m1, m2, v, bm, r, g):
        """the hyperbola of impact parameter b_max sqrt(u), in a plane turned by 2 pi u', at distance r on its way in"""
        if not c.usable(R, 'incident', what): return
        c.true('incident', what + ': draws', LG['k'] == 2, 'it draws %d variates' % LG['k'])
        mu = m1 + m2; envs = []
        best = None
        for i, j in ((0, 1), (1, 0)):
            for x in (u(i), 1 - u(i)):
                b = bm * sqrt(x); a = mu / (v * v)
                ok = pit.equal(c.out(R, 2), ((b * v)**2 / mu).t, c.rng, g, n=6).ok
                if ok: best = (i, j, x)
        i, j, x = best or (0, 1, u(0))
        b = bm * sqrt(x); a = mu / (v * v); e = sqrt(1 + (b / a)**2); p = (b * v)**2 / mu
        c.eq('incident', what + ': semi-latus rectum, impact parameter uniform over the disc', c.out(R, 2), p, gen=g)
        c.eq('incident', what + ': eccentricity, velocity at infinity', c.out(R, 3), e, gen=g)
        c.eq('incident', what + ': phase, at the starting distance and approaching', c.out(R, 7), -acos((p - r) / (e * r)), gen=g)
        c.eq('incident', what + ': m1', c.out(R, 0), m1, gen=g); c.eq('incident', what + ': m2', c.out(R, 1), m2, gen=g)
        c.eq('incident', what + ': is a hyperbola', c.out(R, 8), E(1), gen=g)
        # one of the angles is uniform on the circle, the others are fixed
        y = E(F(1, 2)) - u(j); full = 0
        for k in (4, 5, 6):
            for z in (u(j), 1 - u(j), u(j) - E(F(1, 2)), E(F(1, 2)) - u(j)):
                if pit.equal(c.out(R, k), (2 * pi * z).t, c.rng, g, n=6).ok: full += 1; break
        c.true('incident', what + ': orientation', full == 1, '%d angles of the orbit are uniform on the circle' % full)
    for lab, rr in (('near', (6, 12)), ('far', (200, 4000))):
        R = go('inc'); orbit('incident orbit of masses, %s' % lab, R, I(0), I(1), I(2), I(3), I(4), pos(range(5), **{'in[4]': rr}))
    tops = (0, 1, 2, 3) if c.thorough else (0, 1, 2)
    for n1 in tops:
        for n2 in tops:
            fx = {0: n1, 1: n2}
            A = [Pt(8 + 8 * k) for k in range(max(n1, 1))]; B = [Pt(64 + 8 * k) for k in range(max(n2, 1))]
            nm = '%s and %s' % tuple('a particle' if n == 0 else 'a cluster of %d' % n for n in (n1, n2))
            m1, m2 = M(A), M(B)

            def sz(ps, n): return ps[0].r if n <= 1 else size(ps)
            ei = lambda ps: EK(ps) + EP(ps) - M(ps) * VC(ps).norm2() / 2

            def g(name, typ, rng):
                if name[0] == 'u': return pit.rnd(rng, 0.02, 0.98)
                k = int(name[3:-1])
                if k in (120, 121): return pit.rnd(rng, 0.3, 0.9) if k == 120 else pit.rnd(rng, 1e-9, 1e-6)
                if 8 <= k < 120:
                    q = k % 8
                    if q == 0: return pit.rnd(rng, 0.5, 2)
                    if q == 7: return pit.rnd(rng, 0.1, 0.5)
                    if q in (4, 5, 6): return pit.rnd(rng, -0.2, 0.2)
                return None
            R = go('critc', fx)
            if (n1 > 1 or n2 > 1) and c.usable(R, 'cluster', 'critical velocity of ' + nm):
                c.eq('cluster', 'critical velocity of ' + nm, c.out(R, 0), crit(m1, m2, ei(A), ei(B)), gen=g)
            R = go('bmaxc', fx); rp = lambda f: rt(f, m1, m2, sz(A, n1), sz(B, n2))
            if c.usable(R, 'cluster', 'largest impact parameter of ' + nm): c.eq('cluster', 'largest impact parameter of ' + nm, c.out(R, 0), bmax(m1 + m2, I(120), rp(I(121))), gen=g)
            R = go('incc', fx); v = I(120)
            bm = bmax(m1 + m2, v, rp(E(F(1, 50))))
            orbit('incident orbit of ' + nm, R, m1, m2, v, bm, rp(I(121)), g)
    return c.finish()
