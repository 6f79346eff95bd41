"""reference model of Gauss-Radau collocation (shared by P06 and P07): everything is derived from the quadrature nodes"""
from hx import *
from math import comb


def nodes():
    """roots in (0,1) of the Radau polynomial of eight points with the left end point fixed"""
    mp = pit.mpmath
    # sigma = P_7(x)+P_8(x) over (1+x), roots mapped to (0,1)
    P = lambda n: [Fraction((-1)**k * comb(n, k) * comb(2 * n - 2 * k, n), 2**n) for k in range(n // 2 + 1)]
    c = [Fraction(0)] * 9
    for n in (7, 8):
        for k, a in enumerate(P(n)): c[n - 2 * k] += a
    # synthetic division by (x + 1)
    q = [Fraction(0)] * 8; r = Fraction(0)
    for i in range(8, 0, -1): r = c[i] - r; q[i - 1] = r
    roots = mp.polyroots([mpf(x.numerator) / mpf(x.denominator) for x in reversed(q)], maxsteps=500, extraprec=400)
    return sorted((mp.re(x) + 1) / 2 for x in roots)


H = nodes()
HF = [Fraction(str(pit.mpmath.nstr(x, 45))) for x in H]
ONE = Fraction(1)


def newton_to_power():
    """coefficients c[k][i]: prod_{j<k} (t - h_j) = sum_i c[k][i] t^i"""
    out = [[ONE]]
    for k in range(6):
        a = out[-1]; n = [Fraction(0)] * (len(a) + 1)
        for i, x in enumerate(a): n[i + 1] += x; n[i] -= x * HF[k]
        out.append(n)
    return out


def power_to_newton():
    """d[k][i]: t^k = sum_i d[k][i] prod_{j<i} (t - h_j)"""
    d = [[ONE]]
    for k in range(6):
        a = d[-1]; n = [Fraction(0)] * (len(a) + 1)
        for i, x in enumerate(a): n[i + 1] += x; n[i] += x * HF[i]
        d.append(n)
    return d


C = newton_to_power(); D = power_to_newton()
def to_b(g): return [sum((g[k] * E(C[k][i]) for k in range(i, 7)), E(0)) for i in range(7)]
def to_g(b): return [sum((b[k] * E(D[k][i]) for k in range(i, 7)), E(0)) for i in range(7)]


class Ref:
    """F(t) = F0 + sum_k b_k t^(k+1) through the samples at t = 0 and the nodes"""
    def __init__(s, y, sample0=100):
        s.y = list(y); s.n = None; s.out = []; s.k = sample0

    def size(s, n):
        if s.n != n:
            s.n = n; s.g = [[E(0)] * 7 for _ in range(n)]; s.b = [[E(0)] * 7 for _ in range(n)]; s.old = [[E(0)] * 7 for _ in range(n)]
            s.F0 = s.F = [E(0)] * n; s.diff = [E(0)] * n

    def sample(s, y, lab):
        s.out += [('%s state[%d]' % (lab, i), v) for i, v in enumerate(y)]
        r = [inp('in[%d]' % (s.k + i)) for i in range(len(y))]; s.k += len(y)
        return r

    def state_at(s, h, t):
        return [y + h * E(t) * (s.F0[i] + sum((s.b[i][k] * E(t**(k + 1) / (k + 2)) for k in range(7)), E(0))) for i, y in enumerate(s.y)]

    def correct(s, h, lab=''):
        s.size(len(s.y))
        s.yh = list(s.y)
        s.F0 = s.sample(s.y, lab + ' start')
        for st in range(7):
            s.F = s.sample(s.state_at(h, HF[st]), lab + ' node %d' % st)
            for i in range(s.n):
                v = (s.F[i] - s.F0[i]) / E(HF[st])
                for j in range(st): v = (v - s.g[i][j]) / E(HF[st] - HF[j])
                if st == 6: s.diff[i] = v - s.g[i][st]
                s.g[i][st] = v; s.b[i] = to_b(s.g[i])

    def evaluate(s, h): s.y = s.state_at(h, ONE)

    def predict(s, q):
        for i in range(s.n):
            e = [s.b[i][k] - s.old[i][k] for k in range(7)]
            s.old[i] = [q**(k + 1) * sum((s.b[i][j] * comb(j + 1, k + 1) for j in range(k, 7)), E(0)) for k in range(7)]
            s.b[i] = [s.old[i][k] + e[k] for k in range(7)]
            s.g[i] = to_g(s.b[i])

    def do(s, op, a=None, lab=''):
        if op == 'correct': s.correct(a, lab)
        elif op == 'evaluate': s.evaluate(a)
        elif op == 'predict': s.predict(a)
        elif op == 'integrate': s.correct(a, lab); s.evaluate(a); s.predict(E(1))
        elif op == 'b': s.out += [('%s b[%d][%d]' % (lab, k, i), s.b[i][k]) for k in range(7) for i in range(s.n)]
        elif op == 'y': s.out += [('%s y[%d]' % (lab, i), v) for i, v in enumerate(s.y)]
        elif op == 'io': s.out += [('%s %s[%d]' % (lab, nm, i), v) for nm, x in (('dy_0', s.F0), ('dy_h', s.F), ('y_h', s.yh)) for i, v in enumerate(x)]
        elif op == 'diff': s.out += [('%s diff_b6[%d]' % (lab, i), v) for i, v in enumerate(s.diff)]
        elif op == 'resize': s.y = [inp('in[%d]' % (9 + i)) for i in range(a)]
        elif op == 'order': s.out.append(('order', E(15)))
