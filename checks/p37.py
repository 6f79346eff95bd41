"""Output: what the writers and the stream operators put on a stream, as recorded tokens."""
from systems import *
from streams import *

EXTRA = {0: [], 1: ['radius'], 2: ['radius', 'k_AM', 'tau_lag'], 3: ['sub_sonic_c', 'local_cs']}
XYZ = ['px', 'py', 'pz', 'vx', 'vy', 'vz']
PNAME = ['point', 'size', 'tide', 'drag']


def lines(tok):
    """tokens split at newlines into rows, rows at commas into fields; a field is a list of pieces (text, or a value)"""
    rows = [[[]]]
    for k, v, *_ in tok:
        if k == 'num': rows[-1][-1].append(('num', v)); continue
        for ch in v:
            if ch == '\n': rows.append([[]])
            elif ch == ',': rows[-1].append([])
            elif rows[-1][-1] and rows[-1][-1][-1][0] == 'txt': rows[-1][-1][-1] = ('txt', rows[-1][-1][-1][1] + ch)
            else: rows[-1][-1].append(('txt', ch))
    return rows


def run():
    c = Check('P37', 'Output', 'every character and value that the writers and stream operators of the particle systems put on a stream is recorded from the code with the stream, its number format and the path condition; the rows are matched '
              'with the column names and the accessors', min_obl=1500)
    names = {}
    def patterns(what, kind, log, R):
        """the tokens written, on every path: [(tokens, environments or None)]"""
        always = set(R.st.pc)
        if all(set(t[4]) <= always for t in log.tok): return [(log.tok, None)]
        seen = {}
        for i in range(200 if len(always) > 2 else 60):
            e = pit.Env(random.Random(i * 13 + 1), gen)
            try:
                if not all(bool(e.ev(x)) == v for x, v in R.st.pc): continue
                pat = tuple(all(bool(e.ev(x)) == v for x, v in t[4]) for t in log.tok)
            except (ArithmeticError, TypeError, ValueError): continue
            seen.setdefault(pat, []).append(e)
        if not seen: c.undecided(kind, what + ': the conditions of the output cannot be evaluated'); return []
        return [([t for t, on in zip(log.tok, pat) if on], es[:6]) for pat, es in seen.items()]

    def clean(fields): return [f[0] if len(f) == 1 else ('txt', ''.join(x[1] if x[0] == 'txt' else '#' for x in f)) for f in fields]

    def table(kind, what, rows, nm, n, R, at, envs):
        """n rows, each with the columns nm, of the state whose accessor values stand in the outputs from `at`"""
        if not c.true(kind, what + ': one row per particle', len(rows) == n, '%d rows for %d particles: %s' % (len(rows), n, [len(r) for r in rows])): return
        w = 7 + len(EXTRA[nm[1]]); cols = ['mass'] + XYZ + EXTRA[nm[1]]
        for i, r in enumerate(rows):
            f = clean(r)
            if not c.true(kind, '%s: row %d has one value per column' % (what, i), len(f) == len(nm[0]) and all(x[0] == 'num' for x in f), '%d fields for the columns %s: %s' % (len(f), ','.join(nm[0]), [x[1] if x[0] == 'txt' else '#' for x in f])): continue
            for col, (_, v) in zip(nm[0], f):
                if col == 'time': s = c.out(R, at)
                elif col == 'id': s = E(i)
                elif col in cols: s = c.out(R, at + 1 + w * i + cols.index(col))
                else: c.undecided(kind, '%s: unknown column %r' % (what, col)); continue
                if s is UNDEF or v is UNDEF: c.undecided(kind, '%s: row %d, %s: value not computed' % (what, i, col)); continue
                c.eq(kind, '%s: row %d, column %s' % (what, i, col), v, s, gen=gen, envs=list(envs) if envs else None, n=min(6, len(envs)) if envs else None, need=1 if envs else 2)

    def body(toks, what, kind):
        """rows of the text, which ends with a newline; empty rows only separate"""
        rows = lines(toks)
        if toks and not c.true(kind, what + ': the output ends with a complete row', rows[-1] == [[]], 'the last row is not ended'): return None
        return [r for r in rows if r != [[]]]

    def precise(kind, what, toks):
        wide(kind, what, toks)
        bad = [t for t in toks if t[0] == 'num' and not (t[3][0] == 'hexfloat' or t[3][0] == 'scientific' and t[3][1] >= 16 or t[3][0] == 'default' and t[3][1] >= 17)]
        c.true(kind, what + ': every value is written with at least 17 significant digits', not bad, 'format %s with precision %s' % (bad[0][3] if bad else ('', '')))

    def wide(kind, what, toks): c.true(kind, what + ': no value is rounded to a narrower type', not any(t[0] == 'num' and t[5] == 'float' for t in toks), 'a value is written as float')

    combos = [(s, p, k) for s in SYS for p, k in ((0, 0), (0, 1), (1, 0), (2, 0), (3, 0)) if not k or s != 6]
    if not c.thorough: combos = [x for x in combos if x[1] == 0 or x[0] in (0, 1, 4)]
    mods = dict(zip(combos, c.compile_many([(('out.cpp',), dict(defs=['SYS=%d' % s, 'PT=%d' % p] + ['COMP'] * k + ['GENERIC'] * ((s, p, k) == (0, 0, 0)))) for s, p, k in combos])))
    def go(m, key, fn, n, nout=300, fx=None):
        s, p, k = key; log = Log()
        R = c.run(m, fn, nout, {0: n, **(fx or {})}, intercepts=(chain_intercept([tuple(reversed(range(n)))] * 8) if SYS[s][1] else []) + formats(log), max_steps=4_000_000)
        return R, log

    def job(key):
        s, p, k = key; m = mods[key]
        nm0 = '%s of %s particles%s' % (SYS[s][0], PNAME[p], ', compensated' if k else '')
        R, log = go(m, key, 'names', 2)
        if not c.usable(R, 'columns', nm0): return
        got = [r for r in lines(log.tok)]
        want = ['time', 'id', 'mass'] + XYZ + EXTRA[p]
        cols = [f[0][1] if len(f) == 1 and f[0][0] == 'txt' else '?' for f in got[0]]
        if not c.true('columns', nm0 + ': the column names are one line of distinct names, one per recorded quantity', len(got) == 1 and sorted(cols) == sorted(want), 'columns %s' % cols): return
        for n in (0, 1, 2, 3) if not c.thorough else (0, 1, 2, 3, 4, 5):
            if n == 0 and s in (1, 4, 5, 7): continue
            for fn in ('plain', 'moved', 'twice'):
                what = '%s, n=%d, %s' % (nm0, n, {'plain': 'as built', 'moved': 'after a drift', 'twice': 'two systems'}[fn])
                R, log = go(m, key, fn, n)
                if not c.usable(R, 'rows', what): continue
                c.true('format', what + ": the caller's number format is left alone", all(x == ('default', 6) for x in log.fmt.values()), 'the format of the stream is changed to %s' % list(log.fmt.values())[:1])
                for toks, envs in patterns(what, 'rows', log, R):
                    rows = body(toks, what, 'rows')
                    if rows is None: continue
                    wide('precision', what, toks)
                    if fn == 'twice':
                        if c.true('rows', what + ': rows of both', len(rows) == 2 * n, '%d rows' % len(rows)):
                            table('rows', what + ' (first)', rows[:n], (cols, p), n, R, 0, envs); table('rows', what + ' (copy)', rows[n:], (cols, p), n, R, 100, envs)
                    else: table('rows', what, rows, (cols, p), n, R, 0, envs)
        if p: return
        for n in (2, 3) if not c.thorough else (1, 2, 3, 4):
            for fn, files in (('wr', [[0, 100, 200]]), ('wrcopy', [[0, 100, 200]]), ('wrrun', [[0, 100, 200]]), ('wrtwo', [[0], [100]])):
                what = '%s, n=%d, %s' % (nm0, n, {'wr': 'one writer, three calls', 'wrcopy': 'copies of a writer', 'wrrun': 'writer stored as a callback', 'wrtwo': 'two writers'}[fn])
                R, log = go(m, key, fn, n)
                if not c.usable(R, 'writer', what): continue
                objs = [o for q, o in log.used if q[0] == 'file']; nms = [q[1] for q, o in log.used if q[0] == 'file']
                if not c.true('writer', what + ': every writer opens the file it was given', nms == (['x', 'y'][:len(files)]), 'files opened: %s' % nms): continue
                for toks, envs in patterns(what, 'writer', log, R):
                    c.true('writer', what + ': nothing is written elsewhere', all(any(t[2] is o for o in objs) for t in toks), 'output on another stream')
                    for o, ats, fnm in zip(objs, files, nms):
                        mine = [t for t in toks if t[2] is o]; w2 = '%s, file %s' % (what, fnm)
                        rows = body(mine, w2, 'writer')
                        if rows is None: continue
                        precise('precision', w2, mine)
                        hd = [f[0][1] if len(f) == 1 and f[0][0] == 'txt' else '?' for f in rows[0]] if rows else []
                        if not c.true('header', w2 + ': the first line holds the column names', hd == cols, 'first line %s' % hd): continue
                        if not c.true('writer', w2 + ': one row per particle and call after one header', len(rows) == 1 + n * len(ats), '%d rows after the header for %d calls with %d particles' % (len(rows) - 1, len(ats), n)): continue
                        for q, at in enumerate(ats): table('writer', '%s, call %d' % (w2, q), rows[1 + n * q:1 + n * (q + 1)], (cols, p), n, R, at, envs)
            what = '%s, n=%d, energy writer' % (nm0, n)
            R, log = go(m, key, 'ew', n)
            if not c.usable(R, 'energy', what): continue
            for toks, envs in patterns(what, 'energy', log, R):
                rows = body(toks, what, 'energy')
                if rows is None: continue
                precise('precision', what, toks)
                if not c.true('energy', what + ': one row of time and error per call', len(rows) == 3 and all(len(r) == 2 and all(len(f) == 1 and f[0][0] == 'num' for f in r) for r in rows), 'rows of %s fields' % [len(r) for r in rows]): continue
                for i, r in enumerate(rows):
                    for j, w in enumerate(('time', 'relative energy error since the first call')):
                        c.eq('energy', '%s: call %d, %s' % (what, i, w), r[j][0][1], c.out(R, 2 * i + j), gen=gen, envs=list(envs) if envs else None, n=min(6, len(envs)) if envs else None, need=1 if envs else 2)
        R, log = go(m, key, 'wrput', 0)
        if c.usable(R, 'writer', nm0 + ': values put into a writer'):
            objs = [o for q, o in log.used if q[0] == 'file']
            for o, v in zip(objs, ((3, 4), (5, 6))):
                mine = [t for t in log.tok if t[2] is o]; f = clean(lines(mine)[0])
                precise('precision', nm0 + ': values put into a writer', mine)
                if c.true('writer', nm0 + ': values put into a writer reach its file', len(f) == 2 and all(x[0] == 'num' for x in f), 'fields %s' % f):
                    for x, kk in zip(f, v): c.eq('writer', nm0 + ': value put into a writer', x[1], inp('in[%d]' % kk))
    c.parallel(combos, job)

    # ---- the stream operators of the other types
    m = mods[(0, 0, 0)]
    I = lambda *k: [inp('in[%d]' % x) for x in k]
    conic = lambda nm, typ, rng: pit.rnd(rng, .2, .8) if nm in ('in[%d]' % k for k in range(8)) else None
    OUT = {'o_vec': (I(0, 1, 2), ','), 'o_vecf': (I(0, 1, 2), ','), 'o_orb': (I(0, 1, 2, 3, 4, 5, 6, 7), ','), 'o_kahan': (I(0), ''), 'o_neu': (I(0), ''), 'o_klein': (I(0), ''), 'o_tup1': (I(0), ' '), 'o_tup': ([inp('in[0]'), E(7), inp('in[1]')], ' '),
           'o_arr': (I(0, 1, 2), ' '), 'o_stdv': (I(0, 1, 2), ' '), 'o_stdv0': ([], ' '), 'o_csv': (I(0, 1, 2), ','), 'o_csv1': (I(0), ','), 'o_print': (I(0, 1), ' '), 'o_disp': (I(0, 1, 2), ' ')}
    for fn, (want, sep) in OUT.items():
        log = Log(); R = c.run(m, fn, 8, {}, intercepts=formats(log))
        if not c.usable(R, 'operators', fn): continue
        c.true('format', fn + ": the caller's number format is left alone", all(x == ('default', 6) for x in log.fmt.values()), 'format changed')
        for toks, envs in patterns(fn, 'operators', log, R):
            vals = [t[1] for t in toks if t[0] == 'num']
            txt = ''.join('#' if t[0] == 'num' else t[1] for t in toks)
            if not c.true('operators', fn + ': the values, separated', txt.strip(' ') == sep.join('#' * len(want)), 'wrote %r' % txt): continue
            for i, (a, b) in enumerate(zip(vals, want)): c.eq('operators', '%s: value %d' % (fn, i), a, b if fn != 'o_vecf' else E(a), gen=conic if fn == 'o_orb' else None)
            if fn == 'o_vecf': c.true('operators', fn + ': order', [re.findall(r'in\[(\d)\]', str(a)) for a in vals] == [['0'], ['1'], ['2']], str(vals)[:200])
    RD = lambda k: inp('read[%d]' % k)
    IN = {'i_vec': [RD(0), RD(1), RD(2)], 'i_kahan': [RD(0), E(0)], 'i_neu': [RD(0), E(0)], 'i_klein': [RD(0), E(0)], 'i_input': [RD(0), RD(1), RD(2)], 'i_tup': [RD(0), RD(1), RD(2)]}
    for fn, want in IN.items():
        log = Log(); R = c.run(m, fn, 8, {}, intercepts=[(r'^the_input$', lambda g, st, a, rt, n: P(g.new_obj('istream', 512, 'input'), 0))] + formats(log))
        if not c.usable(R, 'operators', fn): continue
        for i, b in enumerate(want): c.eq('operators', '%s: value %d' % (fn, i), c.out(R, i), b)
    return c.finish()
