from hx import *
from streams import *
ATTR = dict(point={'mass': 0}, size={'mass': 0, 'radius': 1}, tide={'mass': 0, 'radius': 1, 'apsidal constant': 2, 'lag time': 3}, drag={'mass': 0, 'sub-sonic coefficient': 2, 'local sound speed': 3})
XV = {'px': 4, 'py': 5, 'pz': 6, 'vx': 7, 'vy': 8, 'vz': 9}
COL = dict(time=None, id=10, mass=0, radius=1, k_AM=2, tau_lag=3, sub_sonic_c=2, local_cs=3, **XV)


def run():
    c = Check('P18', 'Particle containers', 'every attribute of every particle after construction, appending, resizing, clearing, copying and conversion, for each particle kind: value numbers of the stored columns against the '
              'attribute of that particle; printed values matched with the printed column names', min_obl=1500)
    m = c.compile('containers.cpp')
    inat = lambda i, k: inp('in[%d]' % (10 + 16 * i + k))
    kinds = ['point', 'size', 'tide', 'drag', 'pointk', 'sizek', 'tidek']
    jobs = []
    N = 5 if c.thorough else 3
    for kd in kinds:
        for n in range(0, N + 1):
            for op in ('construct', 'fromlist', 'clear', 'copy', 'aos'): jobs.append((kd, op, n, 0))
            jobs += [(kd, 'append', n, k) for k in (0, 1, n)]
            jobs += [(kd, op, n, k) for op in ('mixed', 'shrink', 'grow') for k in range(0, n + 1)]
            if n: jobs.append((kd, 'print', n, 0))
        jobs += [(kd, 'single', 1, 0), (kd, 'pread', 1, 0), (kd, 'columns', 1, 0)]

    def table(nm, kd, R, off, n, n0, time, order=None):
        g = lambda k: c.out(R, off + k)
        attrs = dict(ATTR[kd], **XV)
        c.eq('size', nm + ': number of particles', g(0), E(n))
        for k, w in ((3, 'masses'), (4, 'positions'), (5, 'velocities'), (6, 'identifiers')): c.eq('size', '%s: stored %s' % (nm, w), g(k), E(n))
        c.eq('time', nm + ': time', g(1), time)
        inat = lambda i, k: inp('in[%d]' % (10 + 16 * (order or range(n))[i] + k))
        for i in range(n):
            c.eq('size', '%s: entries in the columns of the remaining attributes' % nm, g(10 + 16 * i + 15), E(n))
            for w, k in attrs.items(): c.eq('attribute', '%s: %s of particle %d' % (nm, w, i), g(10 + 16 * i + k), inat(i, k))
            c.eq('attribute', '%s: identifier of particle %d' % (nm, i), g(10 + 16 * i + 10), E(i))
            for k, j in ((11, 0), (12, 4), (13, 8)): c.eq('accessor', '%s: array form, particle %d, attribute %d' % (nm, i, j), g(10 + 16 * i + k), inat(i, j))
            c.eq('accessor', '%s: array form, particle %d, identifier' % (nm, i), g(10 + 16 * i + 14), E(i))

    def fields(ev):
        """printed tokens split into rows of fields at ',' and newline"""
        rows = [[[]]]
        for t, v in ev:
            if t == 'num': rows[-1][-1].append(v); continue
            for ch in v:
                if ch == '\n': rows.append([[]])
                elif ch == ',': rows[-1].append([])
                else: rows[-1][-1].append(ch)
        return [r for r in rows if r != [[]]]

    def job(j):
        kd, op, n, k = j
        base = kd.rstrip('k') if kd not in ATTR else kd
        comp = ' compensated' if kd not in ATTR else ''
        nm = '%s%s particles, %s of %d%s' % (base, comp, op, n, ' (%d)' % k if op in ('append', 'mixed', 'shrink', 'grow') else '')
        log = []
        R = c.run(m, '%s_%s' % (kd, op), 320, {0: n, 1: k}, intercepts=streams(log))
        if not c.usable(R, 'container', nm): return
        T0 = inp('in[2]')
        if op in ('construct', 'fromlist', 'mixed', 'shrink', 'grow', 'clear', 'copy'): table(nm, base, R, 0, n, 0, T0, [*range(k), *reversed(range(k, n))] if op == 'shrink' else [*reversed(range(n))] if op == 'clear' else None)
        if op == 'append': table(nm, base, R, 0, n, 0, E(0))
        if op == 'clear':
            c.eq('size', nm + ': empty after clearing', c.out(R, 300), E(0)); c.eq('size', nm + ': no masses after clearing', c.out(R, 301), E(0))
        if op == 'aos':
            c.eq('size', nm + ': number of converted particles', c.out(R, 0), E(n))
            for i in range(n):
                for w, q in dict(ATTR[base], **XV).items(): c.eq('conversion', '%s: %s of converted particle %d' % (nm, w, i), c.out(R, 10 + 16 * i + q), inat(i, q))
            table(nm + ' and back', base, R, 150, n, 0, T0)
        if op == 'single':
            for b, w in ((0, 'vector constructor'), (16, 'scalar constructor')):
                for a, q in dict(ATTR[base], **XV).items(): c.eq('particle', '%s, %s: %s' % (nm, w, a), c.out(R, b + q), inat(0, q))
            for a, q in ATTR[base].items(): c.eq('particle', '%s, defaulted coordinates: %s' % (nm, a), c.out(R, 32 + q), inat(0, q))
            for a, q in XV.items(): c.eq('particle', '%s, defaulted coordinates: %s' % (nm, a), c.out(R, 32 + q), E(0))
        if op == 'print':
            R2 = c.run(m, kd + '_columns', 1, {}, intercepts=streams(cols := []))
            if not c.usable(R2, 'columns', nm): return
            names = ''.join(v for t, v in cols).split(',')
            rows = fields(log)
            if not c.true('columns', nm + ': one row per particle', len(rows) == n, '%d rows' % len(rows)): return
            want = set(ATTR[base]) and {'time', 'id', 'mass', *XV}
            c.true('columns', nm + ': column names are distinct and complete', len(set(names)) == len(names) and want <= set(names) and len(names) == len(want) + len(ATTR[base]) - 1, 'columns %s' % names)
            for i, r in enumerate(rows):
                if not c.true('columns', '%s: row %d has as many values as there are columns' % (nm, i), len(r) == len(names) and all(len(f) == 1 for f in r), '%d values for %d columns' % (len(r), len(names))): continue
                for w, f in zip(names, r):
                    if w not in COL: c.undecided('columns', 'unknown column name %r' % w); continue
                    q = COL[w]
                    c.eq('columns', '%s: row %d, column %s' % (nm, i, w), f[0], T0 if q is None else E(i) if w == 'id' else inat(i, q))
        if op == 'pread':
            R2 = c.run(m, kd + '_pprint', 1, {}, intercepts=streams(pl := []))
            if not c.usable(R2, 'particle stream', nm): return
            order = [str(v) for t, v in pl if t == 'num']
            reads = {i: p for i, p in enumerate(log)}
            got = {}
            for a, q in dict(ATTR[base], **XV).items():
                v = c.out(R, q)
                got[a] = v
                ix = [i for i, (t, x) in enumerate([z for z in pl if z[0] == 'num']) if str(x) == str(inat(0, q).t)]
                if c.true('particle stream', '%s: %s is printed once' % (nm, a), len(ix) == 1, 'printed %d times' % len(ix)):
                    c.eq('particle stream', '%s: %s is read from where it is printed' % (nm, a), v, inp('read[%d]' % ix[0]))
    c.parallel(jobs, job)
    return c.finish()
