from hx import *


def run():
    c = Check('P11', 'Step-size controller', 'proposal, limits and limited proposal of PIDController for every order and every combination of setters: value numbers against the power law', min_obl=300)
    m = c.compile('pid.cpp')

    def gen(name, ty, rng):
        i = int(name[3:-1])
        lo, hi = {2: (.3, 1.2), 3: (.3, 1.2), 4: (.001, .6), 5: (1.2, 9), 6: (.2, 1), 7: (.1, .8), 8: (.1, .8), 12: (.001, 30)}.get(i, (1e-4, 40))
        return mpf(rng.uniform(lo, hi)) if i != 12 else mpf(10)**mpf(rng.uniform(-4, 2))
    orders = range(0, 66) if c.thorough else list(range(0, 17)) + [20, 33, 49, 65]
    sets = [0, 1, 2, 4, 3, 7, 15, 31, 8 + 2] if not c.thorough else list(range(32))
    R0 = c.run(m, 'pid', 20, {0: 4, 1: 0})
    if not c.usable(R0, 'defaults', 'defaults'): return c.finish()

    def job(j):
        p, w = j
        for zero in (False, True):
            f = {0: p, 1: w}
            if zero: f[10] = 0
            R = c.run(m, 'pid', 20, f)
            nm = 'order %d setters %d%s' % (p, w, ' zero error' if zero else '')
            if not c.usable(R, 'controller', nm): continue
            I = lambda k: inp('in[%d]' % k)
            pre = (0.3, 0.4, 0.05, 3.0, 0.1, 0.2) if w & 8 else (None, None, .02, 4.0, .7, .4)
            pre = [None if x is None else E(fc(Fraction(x))) for x in pre]
            S1, S2 = (I(2), I(3)) if w & 1 else pre[:2]
            S3, S4 = (I(4), I(5)) if w & 2 else pre[2:4]
            Kp, Ki = (I(6), I(7)) if w & 4 else pre[4:]
            if S1 is None: S1, S2 = DEF
            po = lambda b, e: E(mk('pow', b.t, e.t))
            x = E(Fraction(1, p)) if p else E(0)
            mx = po(1 / S3, x) if p else S4
            mn = po(S3, x) / S4 if p else 1 / S4
            lim = lambda r, a, b: where(r < a, a, where(r > b, b, r))
            e0, e1, r = I(10), I(11), I(12)
            n1 = mx if zero else S1 * po(S2 / e0, x)
            n2 = mx if zero else S1 * po(S2 / e0, Kp * x) * po(e1 / S2, Ki * x)
            envs = []
            eq = lambda k, what, v: c.eq('controller', nm + ' ' + what, c.out(R, k), v, gen=gen, n=24, envs=None)
            eq(0, 'next(error)', n1); eq(1, 'next((error))', n1); eq(2, 'next((error, last error))', n2)
            eq(3, 'next_with_limiter(error)', lim(n1, mn, mx)); eq(4, 'next_with_limiter((error, last error))', lim(n2, mn, mx))
            eq(5, 'limiter(order, ratio)', lim(r, mn, mx)); eq(6, 'limiter(ratio)', lim(r, 1 / S4, S4))
            eq(7, 'limiter_min(order)', mn); eq(8, 'limiter_max(order)', mx); eq(9, 'limiter_min()', 1 / S4); eq(10, 'limiter_max()', S4)
            eq(11, 'copy next', n1); eq(12, 'copy limiter', lim(r, mn, mx))

    # the default safety factors are read off the code (they are a choice, not a law): from two proposals S1 (S2/e)^(1/p)
    global DEF
    R = c.run(m, 'pid', 20, {0: 1, 1: 0}); R2 = c.run(m, 'pid', 20, {0: 2, 1: 0})
    if not c.usable(R, 'defaults', 'defaults') or not c.usable(R2, 'defaults', 'defaults'): return c.finish()
    env = pit.Env(c.rng, None, {'in[10]': mpf(1)})
    a = env.ev(c.out(R, 0)); b = pit.Env(c.rng, None, {'in[10]': mpf(1)}).ev(c.out(R2, 0))   # a = S1 S2, b = S1 sqrt(S2)
    s2 = (a / b)**2; s1 = a / s2
    fr = lambda v: E(fc(Fraction(str(pit.mpmath.nstr(v, 40)))))
    DEF = (fr(s1), fr(s2))
    c.true('defaults', 'default safety factors are positive and do not exceed one', 0 < s1 <= 1 and 0 < s2 <= 1, '%s %s' % (s1, s2))
    c.parallel([(p, w) for w in sets for p in (orders if w in (0, 7) or c.thorough else (0, 1, 2, 5, 7, 15, 65))], job)
    R = c.run(m, 'constant', 8)
    if c.usable(R, 'constant', 'constant controller'):
        for k in range(4): c.eq('constant', 'constant controller proposal %d is the old step' % k, c.out(R, k), inp('in[0]'))
    return c.finish()
