"""Collision callback: the answer as a value graph over every particle system, against the definition."""
from systems import *
from mpmath import mpf


def run():
    c = Check('P41', 'Collision detection', 'the answer of the collision callback is taken from the code as a value graph for every kind of system and number of particles and compared with the definition over states that put one chosen pair close to contact', min_obl=900)
    combos = [(s, p, k) for s in (0, 1, 2, 4) + ((3, 5, 6, 7) if c.thorough else ()) for p, k in ((1, 0), (2, 0), (1, 1)) if not (k and s == 6) and (c.thorough or s in (0, 4) or (p, k) == (1, 0))]
    mods = dict(zip(combos, c.compile_many([(('collide.cpp',), dict(defs=['SYS=%d' % s, 'PT=%d' % p] + ['COMP'] * k)) for s, p, k in combos])))

    def job(key):
        s, p, k = key; m = mods[key]
        for fn in ('ask', 'moved', 'twice', 'copied', 'second'):
            for n in (0, 1, 2, 3, 4, 5) if fn == 'ask' else (2, 3):
                if SYS[s][1] and n < 2: continue
                what = '%s%s, %s particles, %d of them%s' % (SYS[s][0], ' compensated' if k else '', 'tidal' if p == 2 else 'finite-size', n, {'ask': '', 'moved': ', after a drift', 'twice': ', asked again', 'copied': ', by a copy', 'second': ', after another system'}[fn])
                order = tuple(reversed(range(n)))
                R = c.run(m, fn, 1 + 4 * n + 1, {0: n}, intercepts=chain_intercept(([(0, 1, 2)] if fn == 'second' else []) + [order] * 4) if SYS[s][1] else [], max_steps=4_000_000)
                if not c.usable(R, 'collision', what): continue
                ans = c.out(R, 0)
                P_ = [([c.out(R, 1 + 4 * i + a) for a in range(3)], c.out(R, 4 + 4 * i)) for i in range(n)]
                for i in range(n): c.eq('radius', '%s: radius of particle %d' % (what, i), P_[i][1], inp('in[%d]' % (15 + 8 * i)))
                pairs = [(i, j) for i in range(n) for j in range(i)]
                # every pair in turn is put just inside, at, and just outside contact, all others stay far apart
                for pair in pairs + [None]:
                    for f in ((0.2, 1 - 1e-6, 1 + 1e-6, 1.3) if pair else (None,)):
                        d = {'in[1]': pit.rnd(c.rng, -1, 1), 'in[2]': pit.rnd(c.rng, 0.1, 1), 'in[3]': pit.rnd(c.rng, 0.1, 1)}
                        pos = [[mpf(100 * i + 37) * s_ for s_ in (1, -1, mpf(i % 2))] for i in range(n)]
                        rad = [pit.rnd(c.rng, 0.1, 2) for _ in range(n)]; vel = [pit.rnd(c.rng, -1, 1) for _ in range(3)]
                        if pair:
                            i, j = pair; u = [pit.rnd(c.rng, -1, 1) for _ in range(3)]; w = sum(x * x for x in u)**mpf('0.5')
                            pos[i] = [x + y / w * (rad[i] + rad[j]) * mpf(f) for x, y in zip(pos[j], u)]
                        for i in range(n):
                            d['in[%d]' % (8 + 8 * i)] = pit.rnd(c.rng, 0.1, 2); d['in[%d]' % (15 + 8 * i)] = rad[i]
                            for a in range(3): d['in[%d]' % (9 + 8 * i + a)] = pos[i][a]; d['in[%d]' % (12 + 8 * i + a)] = vel[a]       # one common velocity: a drift leaves the distances
                        e = pit.Env(c.rng, None, d)
                        try: got = e.ev(ans) if isinstance(ans, T) else ans; xs = [([e.ev(y) for y in x], e.ev(r)) for x, r in P_]
                        except (ArithmeticError, TypeError, ValueError) as ex: c.undecided('collision', '%s: %r' % (what, ex)); break
                        want = any(sum((a - b)**2 for a, b in zip(xs[i][0], xs[j][0])) <= (xs[i][1] + xs[j][1])**2 for i, j in pairs)
                        if not c.true('collision', '%s: %s' % (what, 'particles %d and %d at %g of contact' % (pair[1], pair[0], f) if pair else 'all far apart'), got == mpf(int(want)), 'a collision is %s' % ('reported' if got else 'not reported'), tloc(ans)): break
    c.parallel(combos, job)
    return c.finish()


if __name__ == '__main__': main(run)
