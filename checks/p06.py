from radau import *
OPC = dict(correct=1, evaluate=2, predict=3, integrate=4, b=5, y=6, io=7, resize=8, order=9, diff=10)


def run():
    c = Check('P06', 'Gauss-Radau collocation', 'tables, stage states, coefficients, final update and prediction of the Gauss-Radau integrator over a stub system with free derivative samples: value numbers against '
              'the interpolation polynomial through the samples at the Radau nodes (derived here from the node polynomial)', min_obl=200)
    m = c.compile('radau.cpp')
    TOL = mpf(10)**-8
    R = c.run(m, 'tables', 300)
    if c.usable(R, 'tables', 'tables'):
        k = 0
        def nxt(nm, v):
            nonlocal k
            c.eq('tables', nm, c.out(R, k), E(v), tol=mpf(10)**-13); k += 1
        for i in range(7): nxt('node h(%d)' % i, HF[i])
        nxt('node h(7)', ONE)
        for n in range(7):
            for j in range(n + 1):
                z = HF[n] if j == 0 else HF[n] - HF[j - 1]
                nxt('rr(%d,%d)' % (n, j), z)
                p = ONE     # rs(n,0): 1/(h_n (h_n-h_0)...(h_n-h_{n-1})); rs(n,j): the factors from j-1 on
                for q in range(max(j - 1, 0), n): p *= HF[n] - HF[q]
                if j == 0: p *= HF[n]
                nxt('rs(%d,%d)' % (n, j), 1 / p)
                nxt('est_b(%d,%d)' % (n, j), Fraction(comb(n + 1, j + 1)))
                nxt('g2b(%d,%d)' % (n, j), C[n][j])
                nxt('b2g(%d,%d)' % (n, j), D[n][j])
        for i in range(8):
            for q in range(8): nxt('dy_tab(%d,%d)' % (i, q), (HF[i] if i < 7 else ONE)**(q + 1) / (q + 1))
    for fn, f, a, b in (('g2b', to_b, 'G', 'B'), ('b2g', to_g, 'B', 'G')):
        R = c.run(m, fn, 16)
        if not c.usable(R, 'transform', fn): continue
        for i in range(2):
            want = f([inp('in[%d]' % (2 * k + i)) for k in range(7)])
            for k in range(7): c.eq('transform', 'transform_%s %s[%d][%d]' % (fn, b, k, i), c.out(R, 2 * k + i), want[k], tol=TOL)
    N = None
    progs = [[('order', N), ('correct', 0), ('b', N), ('io', N), ('diff', N), ('y', N), ('evaluate', 0), ('y', N)],
             [('correct', 0), ('correct', 0), ('b', N), ('diff', N), ('io', N), ('y', N), ('evaluate', 0), ('y', N), ('predict', 1), ('b', N)],
             [('correct', 0), ('evaluate', 0), ('predict', 1), ('b', N), ('correct', 2), ('b', N), ('diff', N), ('evaluate', 2), ('y', N), ('predict', 3), ('b', N)],
             [('integrate', 0), ('y', N), ('b', N), ('integrate', 1), ('y', N), ('b', N)],
             [('correct', 0), ('predict', 1), ('resize', 3), ('correct', 2), ('b', N), ('y', N), ('evaluate', 2), ('y', N)]]
    def job(j):
        n, prog = j
        fixed = {0: n, 16 + 2 * len(prog): 0}
        r = Ref([inp('in[%d]' % (1 + i)) for i in range(n)])
        nm = 'n=%d %s' % (n, ' '.join(o + ('' if a is N else str(a)) for o, a in prog))
        for k, (o, a) in enumerate(prog):
            fixed[16 + 2 * k] = OPC[o]; fixed[17 + 2 * k] = a or 0
            r.do(o, a if o == 'resize' else N if a is N else inp('in[%d]' % (64 + a)), '%d:%s' % (k, o))
        R = c.run(m, 'radau', 800, fixed)
        if not c.usable(R, 'collocation', nm): return
        envs = []
        for k, (lab, v) in enumerate(r.out): c.eq('collocation', nm + ' -> ' + lab, c.out(R, k), v, tol=TOL, scale=mpf(1), envs=envs)
    c.parallel([(n, p) for n in ((1, 2, 3, 4) if c.thorough else (1, 2)) for p in progs], job)
    return c.finish()
