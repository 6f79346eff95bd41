from systems import *


def leaves(t, acc):
    seen = set(); w = [t]
    while w:
        x = w.pop()
        if not isinstance(x, T) or x in seen: continue
        seen.add(x)
        if x.op == 'in': acc.add(x.args[0])
        w.extend(x.args)
    return acc


def run():
    c = Check('P17', 'Time regularisation', 'value numbers of the initial auxiliary energies, the step scale and the physical time of drifts and kicks equal the LogH/TTL expressions of the '
              'current state; leaf sets of those value numbers show that drift time ignores what a drift changes and kick time what a kick changes; drift(h) drift(-h) and kick(h) kick(-h) are the identity', min_obl=200)
    ids = [i for i in SYS if SYS[i][2]]
    mu = modules(c, ids); mr = modules(c, ids, ['REALF'])
    N = None

    def job(j):
        sysid, lst, n = j
        ords = some_orders(n, c, 3) if SYS[sysid][1] else [()]
        for o in ords:
            for prog in ([('state', N), ('scale', N)], [('drift', 0), ('state', N), ('scale', N)], [('kick', 0), ('scale', N), ('state', N)],
                         [('kick', 0), ('drift', 1), ('scale', N), ('state', N), ('kick', 2), ('scale', N)]):
                check_program(c, mu[sysid], sysid, lst, n, prog, [o, o], 'regularisation', r'time|omega|bindE|step scale')
            ref = Ref(n, sysid, lst, E(1), [o, o, o]); of = ref.offs(); nv = ref.nvar()
            pre = [('write', N), ('fill', N), ('read', N)]
            nm = name_of(sysid, lst, n, [o], [('drift', 0)])
            y = lambda a, b: {'in[%d]' % (300 + k) for k in range(a, b)}
            R = run_program(c, mu[sysid], sysid, 'prog_' + lst, n, pre + [('drift', 0), ('state', N)], [o, o])
            if c.usable(R, 'explicit drift', nm):
                L = leaves(c.out(R, 0), set()) & y(1, nv)
                bad = L & y(of['pos'], of['vel'])
                c.true('explicit drift', nm + ': time', not bad, 'the physical time of a drift depends on positions (%s), which the drift changes' % sorted(bad), tloc(c.out(R, 0)))
            R = run_program(c, mu[sysid], sysid, 'prog_' + lst, n, pre + [('kick', 0), ('state', N)], [o, o])
            if c.usable(R, 'explicit kick', nm):
                for k in range(3 * n):
                    t = c.out(R, 3 + 3 * n + k)
                    bad = leaves(t, set()) & y(of['om'], nv)
                    c.true('explicit kick', nm + ': velocity[%d]' % k, not bad, 'a kick uses the regularisation variables (%s), which kicks change' % sorted(bad), tloc(t))
                c.eq('explicit kick', nm + ': time', c.out(R, 0), inp('in[300]'))
            for op in ('drift', 'kick'):
                prog = pre + [(op, 0), (op, 1), ('write', N), ('array', N)]
                R = run_program(c, mu[sysid], sysid, 'prog_' + lst, n, prog, [o, o])
                nm = name_of(sysid, lst, n, [o], [(op, 0), (op, 1)])
                if c.usable(R, 'reversible', nm):
                    # the second step size is minus the first
                    envs = []
                    sub = {}
                    def g2(name, typ, rng, sub=sub): return gen(name, typ, rng)
                    for k in range(nv): c.eq('reversible', nm + ' (backwards): variable %d' % k, subst(c.out(R, 1 + k), 'in[201]', -inp('in[200]')), inp('in[%d]' % (300 + k)), gen=gen, envs=envs)
        # gravity proper: the same expressions with the real potential, in Cartesian and in chain form
        for o in ords:
            if lst != 'n': continue
            R = run_program(c, mr[sysid], sysid, 'prog_newton', n, [('state', N), ('scale', N)], [o, o])
            nm = name_of(sysid, 'n', n, [o], []) + ' gravity'
            if c.usable(R, 'initial', nm):
                r = Ref(n, sysid, 'n', E(1), [o, o]); r.do('state'); r.do('scale')
                for k, (lab, v) in enumerate(r.out): c.eq('initial', nm + ' -> ' + lab, c.out(R, k), v, gen=gen)
    c.parallel([(s, l, n) for s in ids for l in LISTS for n in ((2, 3, 4, 5) if c.thorough else (2, 3, 4) if l == 'n' else (2, 3))], job)
    return c.finish()

