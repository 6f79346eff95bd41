"""shared by P01-P03: pair forces over plain and chain particles against a per-pair specification"""
import itertools, random
from hx import *


def part(i):
    b = 16 + 16 * i
    v = lambda k: inp('in[%d]' % (b + k))
    return dict(m=v(0), p=V(v(1), v(2), v(3)), v=V(v(4), v(5), v(6)), a=V(v(7), v(8), v(9)), rad=v(10), k=v(11), tau=v(12))


def gen(nm, typ, rng):
    k = int(nm[3:-1])
    if k >= 16 and (k - 16) % 16 in (0, 10, 12): return abs(default_gen(nm, typ, rng))
    return None


gen.dom = lambda nm: (0, None) if nm.startswith('in[') and int(nm[3:-1]) >= 16 and (int(nm[3:-1]) - 16) % 16 in (0, 10, 12) else None


def orders(n, c):
    if n > 7:
        r = random.Random(n); o = list(range(n)); r.shuffle(o); return [tuple(o)]
    al = list(itertools.permutations(range(n)))
    if len(al) <= 6 or c.thorough and n <= 5: return al
    r = random.Random(7 * n)
    keep = [tuple(range(n)), tuple(reversed(range(n)))]
    r.shuffle(al)
    return keep + [o for o in al if o not in keep][:10 if c.thorough else 3]


def check_force(c, force, pair, kind, nplain, nchain, sums=False, fixed_of=None, variants=(('', {}),)):
    """pair(pi, pj) -> acceleration of i due to j"""
    m = c.compile('forces.cpp', defs=['FORCE=' + force])
    for vn, vfix in variants:
        for layout, ns in (('plain', nplain), ('chain', nchain)):
            for n in ns:
                pt = [part(i) for i in range(n)]
                spec = []
                for i in range(n):
                    a = pt[i]['a']
                    for j in range(n):
                        if i != j: a = a + pair(pt[i], pt[j])
                    spec.append(a)
                for o in (orders(n, c) if layout == 'chain' else [tuple(range(n))]):
                    fixed = {0: n}
                    for i, x in enumerate(o): fixed[1 + i] = x
                    for i in range(n):
                        for k, f in vfix.items():
                            x = f(i)
                            if x is not None: fixed[16 + 16 * i + k] = x
                    R = c.run(m, 'f_' + layout, 32, fixed)
                    nm = '%s %s n=%d%s%s' % (force, layout, n, ' order=' + ''.join(map(str, o)) if layout == 'chain' else '', vn)
                    if not c.usable(R, kind, nm): continue
                    sub = {('in[%d]' % k): v for k, v in fixed.items()}
                    for i in range(n):
                        for d in range(3):
                            c.eq(kind, '%s body %d %s' % (nm, i, 'xyz'[d]), c.out(R, 3 * i + d), spec[i][d], gen=wrap(sub))
                    if sums and all(isinstance(c.out(R, k), T) for k in range(3 * n)):
                        for d in range(3):
                            tot = E(0); ref = E(0)
                            for i in range(n):
                                tot = tot + pt[i]['m'] * E(c.out(R, 3 * i + d)); ref = ref + pt[i]['m'] * pt[i]['a'][d]
                            c.eq(kind + '-momentum', '%s %s' % (nm, 'xyz'[d]), tot, ref, gen=wrap(sub))


def wrap(sub):
    def g(nm, typ, rng):
        if nm in sub: return mpf(sub[nm])
        return gen(nm, typ, rng)
    g.dom = lambda nm: None if nm in sub else gen.dom(nm)
    return g
