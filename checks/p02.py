from forces import *


def run():
    c = Check('P02', 'Post-Newtonian accelerations', 'value number of every output acceleration component of PN1, PN2, PN2p5::add_acc_to equals prior + the '
              'harmonic-coordinate terms of Blanchet (Living Rev. Relativity 2014) eq. 203 for every ordered pair, for each particle number and chain order', min_obl=200)
    m = c.compile('forces.cpp', defs=['FORCE=force::PN1'])
    R = c.run(m, 'f_c', 4)
    C = E(c.out(R, 0)); G = E(c.out(R, 1))

    def common(a, b):
        d = a['p'] - b['p']; r = d.norm(); n = d / r
        v1, v2 = a['v'], b['v']
        return r, n, v1, v2, a['m'], b['m'], n.dot(v1), n.dot(v2), v1.dot(v1), v2.dot(v2), v1.dot(v2), v1 - v2
    q = lambda x, y: E(Fraction(x, y))

    def pn1(a, b):
        r, n, v1, v2, m1, m2, nv1, nv2, s1, s2, s12, v12 = common(a, b)
        A = 5 * G**2 * m1 * m2 / r**3 + 4 * G**2 * m2**2 / r**3 + G * m2 / r**2 * (q(3, 2) * nv2**2 - s1 + 4 * s12 - 2 * s2)
        B = G * m2 / r**2 * (4 * nv1 - 3 * nv2)
        return (n * A + v12 * B) / C**2

    def pn2(a, b):
        r, n, v1, v2, m1, m2, nv1, nv2, s1, s2, s12, v12 = common(a, b)
        A = (q(-57, 4) * G**3 * m1**2 * m2 / r**4 - q(69, 2) * G**3 * m1 * m2**2 / r**4 - 9 * G**3 * m2**3 / r**4
             + G * m2 / r**2 * (q(-15, 8) * nv2**4 + q(3, 2) * nv2**2 * s1 - 6 * nv2**2 * s12 - 2 * s12**2 + q(9, 2) * nv2**2 * s2 + 4 * s12 * s2 - 2 * s2**2)
             + G**2 * m1 * m2 / r**3 * (q(39, 2) * nv1**2 - 39 * nv1 * nv2 + q(17, 2) * nv2**2 - q(15, 4) * s1 - q(5, 2) * s12 + q(5, 4) * s2)
             + G**2 * m2**2 / r**3 * (2 * nv1**2 - 4 * nv1 * nv2 - 6 * nv2**2 - 8 * s12 + 4 * s2))
        B = (G**2 * m2**2 / r**3 * (-2 * nv1 - 2 * nv2) + G**2 * m1 * m2 / r**3 * (q(-63, 4) * nv1 + q(55, 4) * nv2)
             + G * m2 / r**2 * (-6 * nv1 * nv2**2 + q(9, 2) * nv2**3 + nv2 * s1 - 4 * nv1 * s12 + 4 * nv2 * s12 + 4 * nv1 * s2 - 5 * nv2 * s2))
        return (n * A + v12 * B) / C**4

    def pn25(a, b):
        r, n, v1, v2, m1, m2, nv1, nv2, s1, s2, s12, v12 = common(a, b)
        nv = n.dot(v12); vv = v12.dot(v12)
        A = q(208, 15) * G**3 * m1 * m2**2 / r**4 * nv - q(24, 5) * G**3 * m1**2 * m2 / r**4 * nv + q(12, 5) * G**2 * m1 * m2 / r**3 * nv * vv
        B = q(8, 5) * G**3 * m1**2 * m2 / r**4 - q(32, 5) * G**3 * m1 * m2**2 / r**4 - q(4, 5) * G**2 * m1 * m2 / r**3 * vv
        return (n * A + v12 * B) / C**5
    mx = [*range(1, 6), 9] if c.thorough else [*range(1, 5), 9]
    for f, spec in (('PN1', pn1), ('PN2', pn2), ('PN2p5', pn25)):
        # the prior contents are scaled so that the tiny correction is compared on its own: prior = 0 and prior free
        check_force(c, 'force::' + f, spec, 'pn', mx, mx, variants=(
            (' from zero', {7: lambda i: 0, 8: lambda i: 0, 9: lambda i: 0}), (' accumulated', {})))
    return c.finish()
