"""Stopwatch: the value graph of every short sequence of operations, with symbolic clock readings."""
from hx import *
import itertools
NAMES = ['start', 'pause', 'reset', 'read']


def run():
    c = Check('P40', 'Stopwatch', 'every sequence of operations of the stopwatch up to a length is interpreted abstractly with symbolic clock readings; each value read is compared with the sum of the active intervals', min_obl=300)
    m = c.compile('timer.cpp')
    S = dict(op=0, n=0, read=set(), names=set())

    def now(g, st, a, rt, n):
        S['n'] += 1; S['read'].add(S['op']); S['names'].add(n.split('(')[0])
        return mk('in', 'clock%d_%d' % (S['op'], S['n']), 'i64')
    def mark(g, st, a, rt, n): S['op'] = a[0]; return 0
    icp = [(r'^std::chrono::(_V2::)?(steady|system|high_resolution)_clock::now\(\)', now), (r'^mark$', mark)]

    def gen(name, typ, rng):                               # all readings of one operation agree, those of later ones are later
        if name.startswith('clock'): return 10**15 + 7 * 10**9 * int(name[5:].split('_')[0]) ** 2 + int(name[5:].split('_')[0]) * 123457
    L = 6 if c.thorough else 4
    def ns(k): return E(mk('i2f', 's', 64, mk('in', 'clock%d_0' % k, 'i64')))
    def fresh(): S.update(op=0, n=0, read=set(), names=set())
    for n in range(0, L + 1):
        for seq in itertools.product(range(4), repeat=n):
            active = False; ok = True
            for k in seq:                                  # a second start of a running watch is left open
                if k == 0:
                    ok &= not active; active = True
                elif k in (1, 2): active = False
            if not ok: continue
            fresh()
            R = c.run(m, 'ops', n + 2, {0: n, **{1 + i: k for i, k in enumerate(seq)}}, intercepts=icp)
            what = ' '.join(NAMES[k] for k in seq) or 'a new watch'
            if not c.usable(R, 'stopwatch', what): continue
            total = E(0); start = None; out = []; need = set()
            for i, k in enumerate(list(seq) + [3]):
                if start is not None or k == 0: need.add(i) if k != 2 else None
                t = total if start is None else total + (ns(i) - start) / 10**9
                if k == 0: start = ns(i)
                elif k == 1: total = t; start = None
                elif k == 2: total = E(0); start = None
                else: out.append(t)
            c.true('clock', what + ': the clock is read by every operation that needs the time', need <= S['read'], 'operations %s do not read it' % sorted(need - S['read']))
            c.true('clock', what + ': the clock never goes back', all('steady_clock' in x for x in S['names']), 'the times come from %s' % sorted(S['names']))
            for i, t in enumerate(out): c.eq('stopwatch', '%s: value %d in seconds' % (what, i), c.out(R, i), t, gen=gen)
    fresh()
    R = c.run(m, 'copied', 4, {}, intercepts=icp)
    if c.usable(R, 'copy', 'a copied watch'):
        for i, t in enumerate([ns(1) - ns(0), ns(2) - ns(0), ns(3) - ns(0), ns(4) - ns(0)]):
            c.eq('copy', 'value %d' % i, c.out(R, i), t / 10**9, gen=gen)
    return c.finish()


if __name__ == '__main__': main(run)
