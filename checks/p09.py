from hx import *


def run():
    c = Check('P09', 'Step-doubling and fixed-step iterators', 'every outcome of the refinement tests (first success at each refinement, or none; raw errors close to the tolerance on both sides; two consecutive steps) '
              'over an uninterpreted integrator: start state, sub-step sizes, arguments of the error norm, committed state and returned step against the protocol', min_obl=300)
    m = c.compile('iterators.cpp')
    Y0 = [inp('in[0]'), inp('in[1]')]; H = [inp('in[2]'), inp('in[3]')]

    def parse(nm, R, order, steps, errs, must_stop, K):
        """errs: raw errors per step; must_stop: per step the refinement (1-based) that has to be the last one, None = the budget"""
        ev = [(x[0][3:], [E(a) for a in x[1]]) for x in R.st.ev if x[0].startswith('ev_')]
        y = Y0; k = 0; used = []
        for st in range(steps):
            tag = nm + (', step %d' % (st + 1) if steps > 1 else '')
            groups = []; cur = []; errors = []
            while k < len(ev) and ev[k][0] in ('int', 'err'):
                if ev[k][0] == 'int': cur.append(ev[k][1])
                else: groups.append(cur); errors.append(ev[k][1]); cur = []
                k += 1
            if not c.true('protocol', tag + ': every result is tested', not cur and groups and k < len(ev) and ev[k][0] == 'next', 'events %s' % [x[0] for x in ev][:40]): return None
            nxt = ev[k][1]; k += 1
            # the first group holds the plain step followed by the first refinement
            first = groups[0]
            groups = [first[:1], first[1:]] + groups[1:]
            res = []; ns = []
            for g, calls in enumerate(groups):
                n = len(calls); ns.append(n)
                if not c.true('protocol', '%s: refinement %d advances' % (tag, g), n > 0 and (g == 0 or n > ns[g - 1]), 'sub-step counts %s' % ns): return None
                cy = y
                for j, (h, a, b) in enumerate(calls):
                    c.eq('equal sub-steps', '%s: refinement %d, sub-step %d of %d' % (tag, g, j + 1, n), h, H[st] / n, n=2)
                    if j < 2 or j == n - 1:
                        w = 'start state' if j == 0 else 'continuation'
                        c.eq(w, '%s: refinement %d, %s of sub-step %d x' % (tag, g, w, j + 1), a, cy[0], n=2)
                        c.eq(w, '%s: refinement %d, %s of sub-step %d y' % (tag, g, w, j + 1), b, cy[1], n=2)
                    cy = [fn('uf:stepa')(a, b, h), fn('uf:stepb')(a, b, h)]
                res.append(cy)
            for g, args in enumerate(errors):
                for i, (a, w) in enumerate(zip(args, y + res[g] + res[g + 1])):
                    c.eq('error arguments', '%s: error test %d, argument %d' % (tag, g + 1, i), a, w, n=2)
            r = len(errors)
            want = must_stop(st, ns) if must_stop else None
            if want is not None: c.true('stopping', tag + ': stops at the first refinement within tolerance', r == want, 'stopped after %d refinements, refinement %s was the first within tolerance' % (r, want))
            if K is not None and want is None: c.true('stopping', tag + ': uses its whole budget', r == K, 'stopped after %d of %d refinements without success' % (r, K))
            s = E(1) / ((Fraction(ns[r], ns[r - 1])) ** order - 1)
            c.eq('controller', tag + ': order handed to the controller', nxt[0], E(order)); c.eq('controller', tag + ': error handed to the controller', nxt[1], E(errs[st][r - 1]) * s)
            out = [E(c.out(R, 3 * st + i)) for i in range(3)]
            c.eq('returned step', tag + ': returned step', out[0], H[st] * fn('uf:lim')(nxt[0], nxt[1]))
            for i in (0, 1): c.eq('committed state', '%s: committed state is the most refined result, variable %d' % (tag, i), out[1 + i], res[-1][i], n=3)
            y = [out[1], out[2]]; used.append(ns)
        c.true('protocol', nm + ': nothing runs after the last step', k == len(ev), 'left over events')
        return used

    BIG = Fraction(10)**9; SMALL = Fraction(1, 10**9)

    def fx(errs):
        return {10 + i: e for i, e in enumerate(errs)}
    for order in ((2, 4, 6, 8, 10) if c.thorough else (2, 4, 10)):
        R = c.run(m, 'seq%d' % order, 3, fx([BIG] * 40))
        if not c.usable(R, 'protocol', 'never converges'): continue
        u = parse('order %d, no refinement converges' % order, R, order, 1, [[BIG] * 40], None, None)
        if not u: continue
        ns = u[0]; K = len(ns) - 1
        sc = [Fraction(ns[i], ns[i - 1]) ** order - 1 for i in range(1, K + 1)]
        jobs = []
        for stop in range(1, K + 1):
            jobs.append(('clear', stop, [BIG] * (stop - 1) + [SMALL] + [BIG] * 30))
            jobs.append(('close', stop, [x * Fraction(1000001, 1000000) for x in sc[:stop - 1]] + [sc[stop - 1] * Fraction(999999, 1000000)] + [BIG] * 30))
            jobs.append(('decreasing', stop, [BIG / 10**i for i in range(stop - 1)] + [SMALL] + [SMALL] * 30))
        jobs.append(('close', None, [x * Fraction(1000001, 1000000) for x in sc] + [SMALL] * 30))
        jobs.append(('exact tolerance', 1, [sc[0]] + [SMALL] * 30)) if sc[0].denominator == 1 else None

        def job(j, order=order, K=K):
            kind, stop, errs = j
            nm = 'order %d, %s errors, first success at refinement %s' % (order, kind, stop)
            R = c.run(m, 'seq%d' % order, 3, fx(errs))
            if c.usable(R, 'protocol', nm): parse(nm, R, order, 1, [errs], lambda st, ns: stop, K)
        c.parallel(jobs, job)

        def job2(j, order=order, K=K):
            s1, s2 = j
            e1 = [BIG] * ((s1 or K + 1) - 1) + [SMALL]; e2 = [BIG] * ((s2 or K + 1) - 1) + [SMALL]
            if s1 is None: e1 = [BIG] * K
            nm = 'order %d, first success at refinement %s then %s' % (order, s1, s2)
            R = c.run(m, 'seqtwo%d' % order, 6, fx(e1 + e2 + [SMALL]))
            if c.usable(R, 'protocol', nm): parse(nm, R, order, 2, [e1, e2 + [SMALL]], lambda st, ns: (s1, s2)[st], K)
        c.parallel([(a, b) for a in (1, 2, 3, None) for b in (1, 2, 5, None)] if order == 2 or c.thorough else [(2, 1), (None, 3)], job2)
    R = c.run(m, 'tol', 1, {})
    if c.usable(R, 'tolerance', 'tolerances'):
        ev = {x[0]: x[1][0] for x in R.st.ev if x[0].startswith('ev_')}
        for k, i in (('ev_atol', 4), ('ev_rtol', 5)):
            if c.true('tolerance', k + ' reaches the error norm', k in ev, 'setting the tolerance does not reach the error norm'): c.eq('tolerance', k + ' value', ev[k], inp('in[%d]' % i))
        c.true('tolerance', 'each tolerance is forwarded once', len([x for x in R.st.ev if x[0].startswith('ev_')]) == 2, 'unexpected forwarded tolerances')
    R = c.run(m, 'cst', 6, {})
    if c.usable(R, 'fixed step', 'fixed-step iterator'):
        ev = [x for x in R.st.ev if x[0] == 'ev_int']
        if c.true('fixed step', 'one integration per step', len(ev) == 2, '%d integrations in two steps' % len(ev)):
            y = Y0
            for k in (0, 1):
                for w, a, b in (('step size', ev[k][1][0], H[k]), ('state x', ev[k][1][1], y[0]), ('state y', ev[k][1][2], y[1]), ('returned step', c.out(R, 3 * k), H[k])): c.eq('fixed step', 'step %d %s' % (k, w), a, b)
                y = [fn('uf:stepa')(*(y + [H[k]])), fn('uf:stepb')(*(y + [H[k]]))]
                for i in (0, 1): c.eq('fixed step', 'step %d committed variable %d' % (k, i), c.out(R, 3 * k + 1 + i), y[i])
    return c.finish()
