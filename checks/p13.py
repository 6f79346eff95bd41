from systems import *


def run():
    c = Check('P13', 'Drift and kick', 'the value number of time, positions, velocities and regularisation variables after drift, kick and short programs of both equals the '
              'declared equations of motion, for every particle system and force composition, over uninterpreted additive forces', min_obl=300)
    ms = modules(c, list(SYS))
    st = ('state', None)
    progs = [[('drift', 0), st], [('kick', 0), st], [('kick', 0), ('drift', 1), ('kick', 2), st, ('acc', None)], [('drift', 0), ('kick', 1), ('pre', None), ('kick', 2), st], [('mass', None)]]
    if c.thorough: progs += [[('drift', 0), ('kick', 1), ('drift', 2), ('kick', 3), ('drift', 4), st], [('kick', 0), ('post', None), ('pre', None), ('kick', 1), st]]
    jobs = [(s, l, n) for s in ms for l in LISTS for n in ((1, 2, 3, 4) if c.thorough else (2, 3))]

    def job(j):
        sysid, lst, n = j
        for prog in progs:
            for o in (some_orders(n, c, 2 if n < 3 else 3) if SYS[sysid][1] else [()]):
                check_program(c, ms[sysid], sysid, lst, n, prog, [o, o], 'motion')
    c.parallel(jobs, job)
    return c.finish()
