from systems import *


def run():
    c = Check('P14', 'Collected increments', 'value number of increment k after each program of drifts and kicks equals the difference of the value numbers of state variable k '
              'before and after; unchanged while collection is off; zero after clearing', min_obl=300)
    ms = modules(c, list(SYS))
    N = None

    def job(j):
        sysid, lst, n = j
        nv = Ref(n, sysid, lst, E(1), [tuple(range(n))] * 3).nvar()
        arr = [('write', N), ('array', N)]; inc = [('inc', N)]
        seqs = [[('drift', 0)], [('kick', 0)], [('drift', 0), ('kick', 1), ('drift', 2)]] + ([[('kick', 0), ('drift', 1), ('kick', 2)], [('drift', 0), ('kick', 1), ('kick', 2), ('drift', 3)]] if c.thorough else [[('kick', 0), ('drift', 1)]])
        for seq in seqs:
            for o in (some_orders(n, c, 2 if n < 3 else 3) if SYS[sysid][1] else [()]):
                nm = name_of(sysid, lst, n, [o], seq)
                pre = [('write', N), ('fill', N), ('read', N)]
                # collected since clear, from an arbitrary state
                R = run_program(c, ms[sysid], sysid, 'prog_' + lst, n, pre + [('on', N), ('drift', 5), ('kick', 6), ('clear', N)] + arr + seq + arr + inc + [('off', N)] + seq + inc + [('clear', N)] + inc, [o, o])
                if not c.usable(R, 'increment', nm): continue
                b0, b1, i1, i2, i3 = [k * (nv + 1) for k in range(5)]
                for b in (b0, b1, i1, i2, i3): c.eq('size', nm + ' size', c.out(R, b), E(nv))
                envs = []
                for k in range(1, nv + 1):
                    a, b, d, off, z = [c.out(R, q + k) for q in (b0, b1, i1, i2, i3)]
                    if UNDEF in (a, b, d, off, z): c.violation('increment', nm + ' increment[%d]' % (k - 1), 'never written'); continue
                    c.eq('increment', nm + ' increment[%d]' % (k - 1), d, E(b) - E(a), gen=gen, envs=envs)
                    c.eq('off', nm + ' collection off, increment[%d]' % (k - 1), off, d, gen=gen, envs=envs)
                    c.eq('clear', nm + ' cleared increment[%d]' % (k - 1), z, E(0), gen=gen, envs=envs)
    c.parallel([(s, l, n) for s in ms for l in LISTS for n in ((1, 2, 3, 4) if c.thorough else (2, 3))], job)
    return c.finish()
