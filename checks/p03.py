from forces import *


def run():
    c = Check('P03', 'Mutual tidal forces', 'value number of every output acceleration component of Tidal::add_acc_to equals prior + the equilibrium-tide '
              'acceleration of both bodies of every pair (Hut 1981), with each body\'s own apsidal constant, lag, radius; bodies with zero constant raise none; '
              'mass-weighted sum of the added terms vanishes', min_obl=100)
    m = c.compile('forces.cpp', defs=['FORCE=force::Tidal'])
    R = c.run(m, 'f_c', 4)
    G = E(c.out(R, 1))

    def pair(a, b):
        dr = b['p'] - a['p']; dv = b['v'] - a['v']; r2 = dr.norm2(); vr = dr.dot(dv) / r2
        def raised(x, y):   # tide on x raised by y: force on the pair along the line of centres
            return 3 * G * x['k'] * x['rad']**5 * y['m']**2 / r2**4 * (1 + 3 * x['tau'] * vr)
        return dr * ((raised(a, b) + raised(b, a)) / a['m'])
    on = lambda *off: {11: (lambda i: 0 if i in off else None)}
    mx = [*range(1, 6), 9] if c.thorough else [*range(1, 5), 9]
    check_force(c, 'force::Tidal', pair, 'tide', mx, mx, sums=True,
                variants=(('', {}), (' k0=0', on(0)), (' k1=0', on(1)), (' k0=k1=0', on(0, 1))))
    return c.finish()
