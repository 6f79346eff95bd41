import itertools, random
from hx import *


def pts(n, b=16): return [V(*[inp('in[%d]' % (b + 3 * i + k)) for k in range(3)]) for i in range(n)]
def chain(x, o): return [x[o[k + 1]] - x[o[k]] for k in range(len(o) - 1)] + [x[o[0]]]
def flat(a): return [q for p in a for q in p]


def greedy(n, rank):
    """closest pair first; then always the closest (end of the chain, particle outside) pair"""
    if n == 1: return [0]
    pr = lambda i, j: rank[(min(i, j), max(i, j))]
    a = min(itertools.combinations(range(n), 2), key=lambda p: rank[p])
    ch = list(a)
    while len(ch) < n:
        out = [k for k in range(n) if k not in ch]
        d, end, k = min((pr(ch[e], k), e, k) for e in (0, -1) for k in out)
        if end == 0: ch.insert(0, k)
        else: ch.append(k)
    return ch


def embed(order, n, rng):
    """sample positions whose pair distances are ordered as given (a perturbed regular simplex for n <= 4)"""
    base = {1: [(0, 0, 0)], 2: [(0, 0, 0), (1, 0, 0)], 3: [(0, 0, 0), (1, 0, 0), (0.5, 3**.5 / 2, 0)],
            4: [(1, 1, 1), (1, -1, -1), (-1, 1, -1), (-1, -1, 1)]}[n]
    x = [list(map(float, p)) for p in base]
    prs = list(itertools.combinations(range(n), 2))
    r0 = sum(sum((a - b)**2 for a, b in zip(x[i], x[j])) for i, j in prs) / max(1, len(prs))
    want = {p: r0 * (1 + 0.02 * (order.index(p) - len(prs) / 2)) for p in prs}
    for _ in range(400):
        for i, j in prs:
            d = [a - b for a, b in zip(x[i], x[j])]; r2 = sum(q * q for q in d)
            f = (want[(i, j)] / r2)**.5; k = (f - 1) / 2
            for a in range(3): x[i][a] += k * d[a]; x[j][a] -= k * d[a]
    return x


class Order:
    """abstract state: a total order of the pair distances.  A comparison is decided only when both sides are one pair's distance."""
    def __init__(s, n, x, rng):
        s.n = n; s.memo = {}; s.samples = []; s.bad = []; s.used = 0
        s.vals = {'in[%d]' % (16 + 3 * i + k): mpf(x[i][k]) for i in range(n) for k in range(3)}
        s.rng = rng
        s.prs = list(itertools.combinations(range(n), 2))
        s.envs = []
        s.main = pit.Env(rng, None, s.vals)
        for _ in range(3): s.envs.append(pit.Env(rng))
        s.spec = {p: (pts(n)[p[0]] - pts(n)[p[1]]).norm2() for p in s.prs}
        s.rank = {p: k for k, p in enumerate(sorted(s.prs, key=lambda p: s.main.ev(s.spec[p].t)))}

    def pair(s, t):
        if t not in s.memo:
            s.memo[t] = None
            for p in s.prs:
                if all(pit.close(e.ev(t), e.ev(s.spec[p].t), mpf(10)**-20) for e in s.envs) or all(pit.close(e.ev(t)**2, e.ev(s.spec[p].t), mpf(10)**-20) for e in s.envs): s.memo[t] = p; break
        return s.memo[t]

    def __call__(s, a, b):
        p, q = s.pair(a), s.pair(b)
        if p is None or q is None: s.bad.append((a, b)); return None
        s.used += 1
        return int(s.rank[p] < s.rank[q])


def run():
    c = Check('P16', 'Chain transformation', 'value numbers of the chain, Cartesian and re-ordered chain coordinates equal the vectors between consecutive particles for every permutation (pair of permutations); '
              'index construction analysed over the abstract domain of total orders of pair distances: every comparison is between two pair distances, and the resulting ordering is the greedy nearest-end chain', min_obl=500)
    m = c.compile('chain.cpp')
    mx = 5 if c.thorough else 4

    def perms(n):
        al = list(itertools.permutations(range(n)))
        return al

    def transforms(n, o):
        nm = 'n=%d order=%s' % (n, ''.join(map(str, o)))
        fixed = {0: n}; fixed.update({1 + i: k for i, k in enumerate(o)})
        x = pts(n)
        R = c.run(m, 'to_chain', 120, fixed)
        if c.usable(R, 'to chain', nm):
            for k, v in enumerate(flat(chain(x, o)) + flat(x)): c.eq('to chain', '%s component %d' % (nm, k), c.out(R, k), v, n=3)
        R = c.run(m, 'to_cart', 120, fixed)
        if c.usable(R, 'to Cartesian', nm):
            y = [None] * n; y[o[0]] = x[n - 1]
            for k in range(1, n): y[o[k]] = y[o[k - 1]] + x[k - 1]
            for k, v in enumerate(flat(y) + flat(x)): c.eq('to Cartesian', '%s component %d' % (nm, k), c.out(R, k), v, n=3)
        R = c.run(m, 'round_trip', 120, fixed)
        if c.usable(R, 'round trip', nm):
            for k, v in enumerate(flat(x) + [E(0)] * (3 * n)): c.eq('round trip', '%s component %d' % (nm, k), c.out(R, k), v, n=3)

    def reorder(n, a, b):
        nm = 'n=%d %s>%s' % (n, ''.join(map(str, a)), ''.join(map(str, b)))
        fixed = {0: n}; fixed.update({1 + i: k for i, k in enumerate(a)}); fixed.update({100 + i: k for i, k in enumerate(b)})
        R = c.run(m, 'reorder', 120, fixed)
        if c.usable(R, 'reorder', nm):
            for k, v in enumerate([E(n)] + flat(chain(pts(n), b)) + [E(q) for q in a + b]): c.eq('reorder', '%s component %d' % (nm, k), c.out(R, k), v, n=3)

    def index(n, order):
        nm = '' if n > 4 else 'n=%d distances %s' % (n, '<'.join('%d%d' % p for p in order))
        orc = Order(n, embed(list(order), n, c.rng) if n <= 4 else order, c.rng)
        if n <= 4 and [p for p in sorted(orc.prs, key=lambda p: orc.rank[p])] != list(order):
            c.undecided('index', nm + ': no sample positions'); return
        if n > 4: nm = 'n=%d distances %s' % (n, '<'.join('%d%d' % p for p in sorted(orc.prs, key=lambda p: orc.rank[p])))
        vg.ORACLE[0] = orc
        try: R = c.run(m, 'index_of', 120, {0: n})
        finally: vg.ORACLE[0] = None
        if orc.bad: c.undecided('index', '%s: branch on a comparison of something other than two pair distances: %s < %s' % (nm, vg.show(orc.bad[0][0], 3), vg.show(orc.bad[0][1], 3))); return
        if not c.usable(R, 'index', nm): return
        got = [c.out(R, 1 + k) for k in range(n)]
        got = [int(g.args[0]) if isinstance(g, T) and g.op == 'fc' else g for g in got]
        c.eq('index', nm + ' size', c.out(R, 0), E(n))
        want = greedy(n, orc.rank)
        c.true('index', nm + ' order', got in (want, want[::-1]), 'constructed chain %s, the nearest-end chain is %s' % (got, want), 'src/particle-system/chain.hpp')

    rng = random.Random(5)
    jobs = []
    for n in range(1, mx + 1):
        al = perms(n)
        jobs += [(transforms, n, o) for o in al]
        prs = [(a, b) for a in al for b in al] if n <= 4 else [tuple(rng.sample(al, 2)) for _ in range(1500)]
        if n == 4 and not c.thorough: prs = [(al[0], b) for b in al] + [(a, al[-2]) for a in al] + rng.sample(prs, 100)
        jobs += [(reorder, n, a, b) for a, b in prs]
    # longer chains: links that run over many old links in both directions, and samples
    for n in range(mx + 1, 13):
        i = tuple(range(n)); r = i[::-1]; rot = i[1:] + i[:1]; rot2 = i[-1:] + i[:-1]; z = tuple(sorted(i, key=lambda q: (q % 2, q if q % 2 else -q)))
        sm = [tuple(rng.sample(i, n)) for _ in range(12 if c.thorough else 3)]
        for o in (i, r, rot, z, *sm): jobs.append((transforms, n, o))
        for a, b in ((i, r), (r, i), (i, rot), (i, rot2), (rot, i), (r, rot), (i, z), (z, r), *((i, q) for q in sm), *((q, z) for q in sm), *zip(sm, sm[1:])): jobs.append((reorder, n, a, b))
    for n in (1, 2, 3, 4):
        al = list(itertools.permutations(list(itertools.combinations(range(n), 2))))
        jobs += [(index, n, o) for o in al]
    for n, k in (((5, 300), (6, 100), (7, 40), (8, 20)) if c.thorough else ((5, 16), (6, 6), (7, 3))):
        jobs += [(index, n, [[rng.random() for _ in range(3)] for _ in range(n)]) for _ in range(k)]
    rng.shuffle(jobs)
    c.parallel(jobs, lambda j: j[0](*j[1:]))
    return c.finish()
