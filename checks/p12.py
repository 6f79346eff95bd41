from systems import *


def run():
    c = Check('P12', 'Flat state array', 'value numbers of the array written, of the state after reading an array of free symbols, of the array written back and of the derivative array, '
              'element by element against the declared layout, for every particle system and force composition', min_obl=300)
    ms = modules(c, list(SYS))
    N = None

    def job(j):
        sysid, lst, n = j
        nv = Ref(n, sysid, lst, E(1), [tuple(range(n))] * 3).nvar()
        st = ('state', N)
        progs = [[('meta', N), ('write', N), ('array', N), st],
                 [('kick', 0), ('drift', 1), ('write', N), ('array', N), ('read', N), st, ('write', N), ('array', N)],
                 [('write', N), ('fill', N), ('read', N), st, ('write', N), ('array', N)],
                 [('write', N), ('fill', N), ('read', N), ('deriv', N), ('array', N), st],
                 [('post', N), ('pre', N), ('deriv', N), ('array', N), ('write', N), ('array', N)]]
        for prog in progs:
            for o in (some_orders(n, c, 2 if n < 3 else 3) if SYS[sysid][1] else [()]):
                check_program(c, ms[sysid], sysid, lst, n, prog, [o, o[::-1]], 'layout')
        for wrong in (0, nv - 1, nv + 1, nv + 3):
            o = tuple(range(n)); prog = [('write', N), ('resize', wrong), ('read', N), st]
            nm = name_of(sysid, lst, n, [o, o], prog)
            R = run_program(c, ms[sysid], sysid, 'prog_' + lst, n, prog, [o, o])
            if R.dead: c.decided('wrong size ends the program'); continue
            if not c.usable(R, 'wrong size', nm): continue
            r = Ref(n, sysid, lst, E(1), [o, o]); r.do('state')
            for k, (lab, v) in enumerate(r.out): c.eq('wrong size', nm + ' -> ' + lab, c.out(R, k), v, gen=gen)
    c.parallel([(s, l, n) for s in ms for l in LISTS for n in ((1, 2, 3, 4) if c.thorough else (2, 3))], job)
    return c.finish()
