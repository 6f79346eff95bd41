from hx import *
from mpmath import mpf, mp
F = Fraction
mp.dps = 50

# reference values in SI (length m, mass kg, time s) with the relative accuracy they are published to in the sources the library uses
AU_M, MS_KG = mpf('149597870700'), mpf('1.98847e30')
YEAR_S = mpf('365.25636') * 86400            # sidereal year
L, M_, T_ = 1 / AU_M, 1 / MS_KG, 2 * mp.pi / YEAR_S
UNITS = dict(AU=(AU_M * L, 0), Ms=(MS_KG * M_, 0), year=(YEAR_S * T_, 0), deg=(mp.pi / 180, 0), kyr=(1000 * YEAR_S * T_, 0), Myr=(10**6 * YEAR_S * T_, 0), Gyr=(10**9 * YEAR_S * T_, 0), month=(YEAR_S * T_ / 12, 0),
             day=(86400 * T_, 1e-6), hr=(3600 * T_, 1e-6), min=(60 * T_, 1e-6), sec=(T_, 1e-6), T_hubble=(mpf('13.8e9') * YEAR_S * T_, 0.02),
             kg=(M_, 1e-6), mp=(mpf('1.67262192e-27') * M_, 1e-6), km=(1000 * L, 1e-9), m=(L, 1e-9), cm=(L / 100, 1e-9), PC=(mpf('3.0856775814913673e16') * L, 1e-9),
             Rs=(mpf('6.957e8') * L, 1e-6), Re=(mpf('6.3781366e6') * L, 1e-4), Rj=(mpf('6.9911e7') * L, 1e-6), kms=(1000 * L / T_, 1e-6), cms=(L / 100 / T_, 1e-6),
             Me=(mpf('5.9722e24') * M_, 3e-4), Mj=(mpf('1.89819e27') * M_, 5e-4), Mmoon=(mpf('7.346e22') * M_, 5e-4))
D = mp.pi / 180
CONSTS = dict(pi=(mp.pi, 1e-15), G=(mpf(1), 0), C=(mpf('299792458') * L / T_, 1e-6), kB=(mpf('1.380649e-23') * L * L * M_ / T_ / T_, 3e-6), kB_on_mp=(mpf('1.380649e-23') / mpf('1.67262192e-27') * L * L / T_ / T_, 3e-6),
              a_jupiter=(mpf('5.2044'), 1e-3), e_jupiter=(mpf('0.0489'), 1e-2), LoAN_jupiter=(mpf('100.464') * D, 1e-4), AoP_jupiter=(mpf('273.867') * D, 1e-4), i_jupiter=(mpf('6.09') * D, 2e-3),
              a_neptune=(mpf('30.11'), 2e-3), e_neptune=(mpf('0.0095'), 3e-2), LoAN_neptune=(mpf('131.784') * D, 1e-4), AoP_neptune=(mpf('276.336') * D, 2e-2), i_neptune=(mpf('6.43') * D, 2e-3),
              a_mercury=(mpf('0.387098'), 1e-5), e_mercury=(mpf('0.20563'), 1e-4), LoAN_mercury=(mpf('48.331') * D, 1e-4), AoP_mercury=(mpf('29.124') * D, 1e-4), i_mercury=(mpf('3.38') * D, 2e-3))


def run():
    c = Check('P26', 'Units and constants', 'constant propagation over the IR of every exported unit, its literal operators and every constant, value graphs of the helpers built on them, and scaling covariance of the value graphs of the forces', min_obl=250)
    m = c.compile('units.cpp')
    val = {}

    def number(R, k):
        t = c.out(R, k)
        try: return mpf(pit.Env(c.rng).ev(t) if not isinstance(t, (int, float)) else t)
        except Exception: return None

    def close(a, b, tol): return a is not None and abs(a - b) <= abs(b) * max(tol, 1e-15)
    for u, (ref, tol) in UNITS.items():
        R = c.run(m, 'unit_' + u, 5, {})
        if not c.usable(R, 'unit', u): continue
        v = number(R, 0); val[u] = v
        c.true('unit', u, close(v, ref, tol), '1 %s is %s in the units of the library, it should be %s' % (u, mp.nstr(v, 12), mp.nstr(ref, 12)))
        if v is None: continue
        V_ = E(vg.fc(F(float(v))))
        for k, x in ((2, inp('in[1]')),): c.eq('literal', 'decimal literals of ' + u, c.out(R, k), x * V_)
        c.true('literal', 'a literal 3_' + u, close(number(R, 3), 3 * v, 4e-16), '3_%s is %s, not three times the unit' % (u, mp.nstr(number(R, 3), 12)))
        c.true('literal', 'a literal 2.5_' + u, close(number(R, 4), mpf('2.5') * v, 4e-16), '2.5_%s is %s' % (u, mp.nstr(number(R, 4), 12)))
        c.eq('literal', 'integer literals of ' + u, c.out(R, 1), inp('in[0]') * V_, gen=lambda n, t, r: mpf(r.randrange(1, 2**40)) if n == 'in[0]' else None)
    for k, (ref, tol) in CONSTS.items():
        R = c.run(m, 'const_' + k, 1, {})
        if not c.usable(R, 'constant', k): continue
        v = number(R, 0); val[k] = v
        c.true('constant', k, close(v, ref, tol), '%s is %s in the units of the library, it should be %s' % (k, mp.nstr(v, 12), mp.nstr(ref, 12)))
    # consistency to rounding accuracy: each derived unit is its combination of the others
    g = lambda *n: all(val.get(x) is not None for x in n)
    for a, what, f, need in (('kyr', '1000 years', lambda: 1000 * val['year'], ['year']), ('Myr', '1000 kyr', lambda: 1000 * val['kyr'], ['kyr']), ('Gyr', '1000 Myr', lambda: 1000 * val['Myr'], ['Myr']), ('year', '12 months', lambda: 12 * val['month'], ['month']),
                             ('day', '24 hours', lambda: 24 * val['hr'], ['hr']), ('hr', '60 minutes', lambda: 60 * val['min'], ['min']), ('min', '60 seconds', lambda: 60 * val['sec'], ['sec']), ('km', '1000 m', lambda: 1000 * val['m'], ['m']),
                             ('m', '100 cm', lambda: 100 * val['cm'], ['cm']), ('kms', 'km per second', lambda: val['km'] / val['sec'], ['km', 'sec']), ('cms', 'cm per second', lambda: val['cm'] / val['sec'], ['cm', 'sec']),
                             ('deg', 'a 180th of pi', lambda: val['pi'] / 180, ['pi']), ('year', 'the period of a unit orbit, 2 pi sqrt(AU^3 / (G Ms))', lambda: 2 * val['pi'] * mp.sqrt(val['AU']**3 / val['G'] / val['Ms']), ['pi', 'AU', 'G', 'Ms']),
                             ('PC', 'AU over the tangent of an arc second', lambda: val['AU'] * 648000 / val['pi'], ['AU', 'pi']), ('kB_on_mp', 'kB over mp', lambda: val['kB'] / val['mp'], ['kB', 'mp']), ('C', '299792.458 km/s', lambda: mpf('299792.458') * val['kms'], ['kms'])):
        if not g(a, *need): c.undecided('combination', a); continue
        c.true('combination', '%s: %s' % (a, what), close(val[a], f(), 1e-14), '%s is %s, but %s is %s' % (a, mp.nstr(val[a], 17), what, mp.nstr(f(), 17)))
    # helpers
    I = lambda k: inp('in[%d]' % k); cst = lambda k: E(vg.fc(F(float(val[k]))))
    pos = lambda n, t, r: pit.rnd(r, 0.3, 3)

    def one(f, what, spec, gen=pos):
        R = c.run(m, f, 2, {})
        if c.usable(R, 'helper', what): c.eq('helper', what, c.out(R, 0), spec, gen=gen)
    if g('C', 'Rs', 'Ms', 'km', 'pi'):
        for pre, lab in (('star_', ''), ('starl_', ', extended')):
            one(pre + 'bh', 'radius of a black hole: 2 G M / C^2' + lab, 2 * I(0) / (cst('C') * cst('C')))
            one(pre + 'ns', 'radius of a neutron star: 10 km' + lab, 10 * cst('km'))
            one(pre + 'star', 'radius of a star: Rs (M / Ms)^(3/4)' + lab, cst('Rs') * powf(I(0) / cst('Ms'), E(F(3, 4))))
            one(pre + 'wd', 'radius of a white dwarf: 0.01 Rs (Ms / M)^(1/3)' + lab, E(F(1, 100)) * cst('Rs') * powf(cst('Ms') / I(0), E(F(1, 3))))
        # inner period times m_in / m3 times (effective outer axis / inner axis)^3
        ge = lambda n, t, r: pit.rnd(r, 0.1, 0.9) if n in ('in[5]', 'in[6]') else pit.rnd(r, 0.3, 3)
        def elk(m1, m2, m3, a1, a2, e2): mi = m1 + m2; x = a2 * sqrt(1 - e2 * e2) / a1; return 2 * cst('pi') * sqrt(a1 * a1 * a1 / mi) * mi / m3 * x * x * x
        one('elk', 'Lidov-Kozai time scale', elk(*[I(k) for k in range(6)]), ge)
        one('elko', 'Lidov-Kozai time scale of two orbits', elk(*[I(k) for k in range(6)]), ge)
    scaling(c)
    return c.finish()


def scaling(c):
    """accelerations under a change of the units of length, time and mass that keeps G (and, where the speed of light enters, C)"""
    FORCES = [('force::NewtonianGrav', 'Newtonian gravity', 'any'), ('force::PN1', 'first post-Newtonian order', 'c'), ('force::PN2', 'second post-Newtonian order', 'c'), ('force::PN2p5', 'radiation reaction', 'c'), ('force::Tidal', 'tides', 'any')]
    mods = c.compile_many([(('forces.cpp',), dict(defs=('FORCE=' + f,))) for f, *_ in FORCES])
    for (f, lab, kind), m in zip(FORCES, mods):
        for n in (2, 3):
            for entry in ('f_plain', 'f_chain'):
                fx = {0: n}
                for i in range(8): fx[1 + i] = i
                R = c.run(m, entry, 64, fx)
                what = '%s, n=%d, %s' % (lab, n, 'chain' if entry == 'f_chain' else 'plain')
                if not c.usable(R, 'scaling', what): continue
                bad = None; ok = 0
                for draw in range(3):
                    base = {}
                    for i in range(n):
                        b = 16 + 16 * i
                        for k in range(16): base[b + k] = pit.rnd(c.rng, -2, 2)
                        for k in (0, 10, 11, 12): base[b + k] = pit.rnd(c.rng, 0.3, 2)
                        for k in (7, 8, 9): base[b + k] = mpf(0)
                    lam = pit.rnd(c.rng, 1.5, 3)
                    mu = lam if kind == 'c' else pit.rnd(c.rng, 1.5, 3)
                    tau = mp.sqrt(lam**3 / mu)
                    sc = {}
                    for i in range(n):
                        b = 16 + 16 * i
                        for k in range(16):
                            s = mu if k == 0 else lam if k in (1, 2, 3, 10) else lam / tau if k in (4, 5, 6) else tau if k == 12 else 1
                            sc[b + k] = base[b + k] * s
                    e0, e1 = [pit.Env(c.rng, None, {'in[%d]' % k: x for k, x in d.items()}) for d in (base, sc)]
                    for k in range(3 * n):
                        try: x, y = e0.ev(c.out(R, k)), e1.ev(c.out(R, k))
                        except pit.Opaque: continue
                        ok += 1
                        if abs(y - x * lam / tau**2) > mpf(10)**-20 * (abs(y) + abs(x)) and bad is None: bad = (k, x, y, lam, tau)
                c.true('scaling', what, ok and bad is None, 'component %s is not an acceleration: %s' % (bad[0] if bad else '?', 'under units %s (length), %s (time) it goes from %s to %s' % tuple(mp.nstr(q, 8) for q in (bad[3], bad[4], bad[1], bad[2])) if bad else 'no component could be evaluated'))
                c.decided('scaling', ok)
