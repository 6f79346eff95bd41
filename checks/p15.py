from systems import *


def run():
    c = Check('P15', 'Chain and plain siblings evolve identically', 'value numbers of time, regularisation variables, positions and velocities after programs of drifts, kicks and chain '
              'reorderings: the chain system and its plain sibling compute the same function, for every pair of chain orderings sampled', min_obl=300)
    ids = list(SYS)
    mu = modules(c, ids); mr = modules(c, ids, ['REALF'])
    N = None
    tail = [('state', N), ('acc', N), ('scale', N)]
    progs = [[('drift', 0), ('kick', 1), ('post', N), ('pre', N), ('drift', 2), ('kick', 3)] + tail,
             [('kick', 0), ('post', N), ('pre', N), ('kick', 1), ('drift', 2), ('post', N), ('pre', N), ('kick', 3)] + tail,
             [('kick', 0), ('drift', 1), ('write', N), ('drift', 2), ('kick', 3), ('read', N), ('kick', 4), ('drift', 5)] + tail]

    def job(j):
        (a, b), fn, n = j
        ms = mr if fn in ('newton', 'pn1') else mu
        for prog in progs if fn != 'pn1' or c.thorough else progs[:1]:
            os = some_orders(n, c, 3)
            for o in ([(x, y) for x in os for y in os] if n < 4 and fn != 'pn1' else list(zip(os, os[1:] + os[:1]))):
                o = [o[0], o[1], o[0]]
                RA = run_program(c, ms[a], a, 'prog_' + fn, n, prog, o); RB = run_program(c, ms[b], b, 'prog_' + fn, n, prog, o)
                nm = '%s / %s forces=%s n=%d orders=%s: %s' % (SYS[a][0], SYS[b][0], fn, n, '>'.join(''.join(map(str, x)) for x in o), ' '.join(x + ('' if y is None else str(y)) for x, y in prog[:-3]))
                if not c.usable(RA, 'siblings', nm) or not c.usable(RB, 'siblings', nm): continue
                envs = []
                lab = ['time', 'omega', 'bindE'] + ['position[%d]' % k for k in range(3 * n)] + ['velocity[%d]' % k for k in range(3 * n)] + ['acceleration[%d]' % k for k in range(3 * n)] + ['step scale']
                for k, l in enumerate(lab):
                    x, y = c.out(RA, k), c.out(RB, k)
                    if x is UNDEF or y is UNDEF: c.violation('siblings', nm + ' -> ' + l, 'never written'); continue
                    c.eq('siblings', nm + ' -> ' + l, y, x, gen=gen, envs=envs, n=3)
    pairs = [(0, 1), (2, 4), (3, 5)] + ([(6, 7)] if c.thorough else [])
    c.parallel([(p, f, n) for f in ('pn1', 'newton', 'sd', 'd', 's', 'n') for p in pairs for n in ((2, 3, 4) if c.thorough else (3,) if f != 'newton' else (3, 4))], job)
    return c.finish()
