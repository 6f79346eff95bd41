from hx import *
from streams import streams
F = Fraction
SRC = os.path.realpath(REPO + '/src')
THIRD = ('small-vector.hpp', 'mpfr.hpp', 'taskflow/')          # LLVM's vector, the MPFR wrapper and Taskflow, delivered with the sources
ENDS = {'exit': 1, '_exit': 0, '_Exit': 0, 'quick_exit': 0, 'abort': 0, '_ZSt9terminatev': 0}      # does it flush the standard streams
STATUS = {'exit', '_exit', '_Exit', 'quick_exit'}
PRIM = re.compile(r'operator<<|__ostream_insert|::_M_insert<|::put\(|::write\(|^(?:v?f?printf|puts|putchar|fputs|fputc|fwrite|perror|write)$')
STREAM = {'_ZSt4cout': False, '_ZSt4cerr': True, '_ZSt4clog': False}
CSTREAM = {'printf': False, 'puts': False, 'putchar': False, 'vprintf': False, 'perror': True}
FLUSH = re.compile(r'std::endl<|std::flush<|::flush\(\)|^fflush$')
SUCC = {'br': lambda t: [t[3]], 'condbr': lambda t: [t[4], t[5]], 'switch': lambda t: [t[5]] + [x[1] for x in t[6]], 'invoke': lambda t: [t[6], t[7]]}


class Sites:
    """every call that ends the process, with the messages written on each path from the entry of its function to it"""
    def __init__(s, c, m):
        s.c = c; s.m = m; s.dem = m.demangle(); s.sum = {}; s.writes = {}; s.defs = {}
        s.own = {}
        s.callers = {}
        for n, f in m.funcs.items():
            if f.declared_only: continue
            for l in (f.lines or ()):
                for g in set(re.findall(r'(?:call|invoke) .*?@("[^"]*"|[-\w$.]+)\(', l)): s.callers.setdefault(g.strip('"'), set()).add(n)

    def mine(s, n):
        if n not in s.own:
            f = s.m.funcs[n].parse(); l = s.m.loc(f.dbg)
            p = l and s.path(f.dbg, l[0])
            s.own[n] = bool(p and p.startswith(SRC + '/') and not p[len(SRC) + 1:].startswith(THIRD))
        return s.own[n]

    def path(s, dbg, name):
        if os.path.isabs(name): return os.path.realpath(name)
        sc = dbg
        for _ in range(50):
            f = s.m.md_field(sc, 'file')
            if isinstance(f, int): return os.path.realpath(os.path.join(s.m.md_field(f, 'directory') or '/', name))
            sc = s.m.md_field(sc, 'scope')
            if sc is None: return name
        return name

    def place(s, dbg):
        l = s.m.loc(dbg)
        return l and (s.path(dbg, l[0]), l[1])

    def reaches(s, n, seen=None):
        if n in s.writes: return s.writes[n]
        if PRIM.search(s.dem.get(n, n)): s.writes[n] = True; return True
        seen = seen or set()
        if n in seen: return False
        seen.add(n)
        f = s.m.funcs.get(n); r = False
        if f is not None and not f.declared_only:
            for it in s.calls(n):
                if it[4][0] == 'glob' and s.reaches(it[4][1], seen): r = True; break
        s.writes[n] = r
        return r

    def calls(s, n):
        return [it for b in s.m.funcs[n].parse().blocks.values() for it in b if it[0] in ('call', 'invoke')]

    def stream(s, n, v, depth=0):
        """the standard stream a value denotes: True flushed at once, False buffered, None other"""
        if v[0] == 'glob': return STREAM.get(v[1])
        if v[0] in ('gep', 'cast', 'expr', 'ce') or depth > 40: return next((STREAM[x] for x in STREAM if x in repr(v)), None)
        if v[0] == 'reg':
            d = s.defs.get(n)
            if d is None: d = s.defs[n] = {it[1]: it for b in s.m.funcs[n].parse().blocks.values() for it in b if it[1] is not None}
            it = d.get(v[1])
            if it is None: return None
            if it[0] in ('call', 'invoke'):
                for a in it[5]:
                    r = s.stream(n, a[1], depth + 1)
                    if r is not None: return r
            if it[0] == 'getelementptr' or it[0] == 'gep': return next((STREAM[x] for x in STREAM if x in repr(it)), None)
        return None

    def texts(s, n, it):
        """what an output call is handed: constant texts, and '*' for anything that is not constant; the place of the failure does not count"""
        r = set()
        for a in it[5]:
            v = a[1]
            if v[0] == 'glob' and v[1] in s.m.globals_src and v[1] not in STREAM:
                if re.match(r'__(?:FUNCTION|func|PRETTY_FUNCTION)__', v[1]): continue
                g = s.m.global_init(v[1])[1]
                if not g or g[0] != 'bytes': continue
                t = g[1].rstrip(b'\0').decode('utf8', 'replace')
                if t.strip() and not re.search(r'\.(?:hpp|h|tpp)$', t): r.add(t)
            elif v[0] == 'reg' and s.stream(n, v) is None and a[0].k == 'ptr':
                vals = [i[4] for b in s.m.funcs[n].parse().blocks.values() for i in b if i[0] == 'store' and i[5] == v]
                if not (vals and all(x[0] in ('int', 'glob') for x in vals)): r.add('*')
        return frozenset(r)

    def effect(s, n, it, sts):
        """states after a call; a state is (a message was written, some of it is still buffered, the texts written)"""
        cal = it[4]
        if cal[0] != 'glob': return sts
        g = cal[1]; d = s.dem.get(g, g)
        k = next((x for x in (s.stream(n, a[1]) for a in it[5]) if x is not None), None)
        if g in CSTREAM: k = CSTREAM[g]
        if FLUSH.search(d) or any('_ZSt4endl' in repr(a[1]) or '_ZSt5flush' in repr(a[1]) for a in it[5]): return {(a, False, t) for a, b, t in sts}
        if k is not None and s.reaches(g):
            tx = s.texts(n, it)
            return {(True, b or not k, t | tx) for a, b, t in sts}
        f = s.m.funcs.get(g)
        if f is not None and not f.declared_only and s.mine(g) and s.reaches(g):
            tx = s.texts(n, it)
            return {(a or x, b or y, t | z | (tx if x else frozenset())) for a, b, t in sts for x, y, z in s.summary(g)}
        return sts

    def summary(s, n):
        if n not in s.sum:
            s.sum[n] = {(False, False, frozenset())}
            r = set()
            s.walk(n, {(False, False, frozenset())}, lambda it, sts: None, r)
            s.sum[n] = r
        return s.sum[n]

    def walk(s, n, start, at, rets=None):
        f = s.m.funcs[n].parse(); inn = {f.entry: set(start)}; w = [f.entry]; hits = {}
        while w:
            b = w.pop(); sts = set(inn[b]); last = None
            for it in f.blocks[b]:
                last = it
                if it[0] in ('call', 'invoke'):
                    hits[id(it)] = (it, set(sts)) if id(it) not in hits else (it, hits[id(it)][1] | sts)
                    sts = s.effect(n, it, sts)
                elif it[0] == 'ret' and rets is not None: rets |= sts
            for t in SUCC.get(last[0], lambda t: [])(last) if last else []:
                if t not in inn or not sts <= inn[t]: inn[t] = inn.get(t, set()) | sts; w.append(t)
        for it, sts in hits.values(): at(it, sts)

    def status(s, n, v, seen=()):
        """set of constants a status can be, ('arg', k) for a parameter, None for anything else"""
        if v[0] == 'int': return {v[1]}
        if v[0] in ('reg',):
            f = s.m.funcs[n].parse()
            for k, (t, nm) in enumerate(f.params):
                if nm == v[1]: return {('arg', k)}
            it = next((i for b in f.blocks.values() for i in b if i[1] == v[1]), None)
            if it is None or v[1] in seen: return set() if it is not None else {None}
            seen = seen + (v[1],)
            if it[0] == 'phi': return set().union(*[s.status(n, x[0] if isinstance(x[0], tuple) else x[1], seen) for x in it[4]])
            if it[0] == 'select': return s.status(n, it[5], seen) | s.status(n, it[6], seen)
            if it[0] == 'load' and it[4][0] == 'glob':
                g = s.m.global_init(it[4][1])
                if g[2] and g[1] is not None and g[1][0] == 'int': return {g[1][1]}
        return {None}

    def run(s):
        """[(function, location, kind, detail)] problems, and every site seen"""
        prob, seen = [], []
        todo = [(g, ENDS[g], g in STATUS, None) for g in ENDS if g in s.callers]; done = set()
        while todo:
            g, flushes, st, need = todo.pop()
            if (g, st, need) in done: continue
            done.add((g, st, need))
            for n in sorted(s.callers.get(g, ())):
                if not s.mine(n): continue
                if g not in ENDS and s.m.funcs[n].declared_only: continue

                def at(it, sts, n=n):
                    if it[4] != ('glob', g): return
                    loc = s.place(it[2])
                    if g in ENDS: seen.append((s.dem.get(n, n), loc, [t for a, b, t in sts if a]))
                    up = None; ups = False
                    if need != 'status only':
                        if any(not a for a, b, t in sts): up = 'message'
                        elif not flushes and any(b for a, b, t in sts): prob.append((n, loc, 'message', '%s does not flush the standard streams: the message still in the buffer is lost' % s.dem.get(g, g)))
                    if st and need != 'message only':
                        k = 0 if g in ENDS else st - 1
                        for x in s.status(n, it[5][k][1]):
                            if isinstance(x, tuple): todo.append((n, 1, x[1] + 1, 'status only')); ups = True; continue
                            if x is None: prob.append((n, loc, 'undecided', 'the exit status is not a constant'))
                            elif x & 255 == 0: prob.append((n, loc, 'status', 'ends the process with exit status %d, which means success' % x))
                    if up:
                        if any(s.mine(x) for x in s.callers.get(n, ())) : todo.append((n, flushes, False, 'message only'))
                        else: prob.append((n, loc, 'message', 'a path reaches the end of the process without a message on a standard stream'))
                s.walk(n, {(False, False, frozenset())}, at)
        return prob, seen


def run():
    c = Check('P31', 'Fatal errors', 'typestate of every call that ends the process (message written on every path to it, non-zero constant status, nothing lost in a buffer), and value graphs of every failure condition (control never reaches the caller) next to conditions that are no failure', min_obl=110)
    def comp(j):
        return c.compile(*j[0], **j[1])
    jobs = [(('fatal.cpp',), {}), (('fatal.cpp',), dict(flags=('-DDEBUG',))), (('ias15.cpp',), {}), (('bs.cpp',), {}), (('run.cpp',), {}), (('orbits.cpp',), {}), (('systems.cpp',), dict(defs=('SYS=1',))), (('systems.cpp',), dict(defs=('SYS=4',))), (('helpers.cpp',), {})]
    mods = c.compile_many(jobs)
    m, md, mi, mb, mr, mo = mods[:6]
    # ---- the sites
    probs, sites, said = {}, {}, {}

    for j, mm in zip(jobs, mods):
        p, s = Sites(c, mm).run()
        for x in p: probs.setdefault((x[1], x[2], x[3]), x)
        for f, loc, t in s: sites.setdefault(loc, f); said.setdefault(loc, []).extend(t)
    if not sites: raise Broken('no call that ends the process was found')
    count = {}
    for loc, ts in said.items():
        for t in set().union(*ts): count[t] = count.get(t, 0) + 1
    common = {t for t, k in count.items() if 2 * k > len(sites) and t != '*'}
    for loc, ts in said.items():
        if any(not (t - common) for t in ts): probs.setdefault((loc, 'message', 0), (sites[loc], loc, 'message', 'a path ends the process without a message of its own: only the place is printed'))
    bad = {(x[1]) for x in probs.values()}
    for loc in sites:
        if loc not in bad: c.decided('site', 2)
    for n, loc, kind, msg in sorted(probs.values(), key=str):
        d = mods[0].demangle().get(n, n)
        if kind == 'undecided': c.undecided('site', '%s: %s' % (loc, msg)); continue
        c.decided('site'); c.violation('site', 'failure exit in %s' % re.sub(r'\(.*', '', next((sites[l] for l in sites if l == loc), d))[-100:], msg, loc)

    # ---- the conditions
    opened = [False]; ended = [False]
    def getline(g, st, a, rt, n): ended[0] = True; return a[0]
    fs = r'^std::(?:__cxx11::)?basic_[io]?(?:f|string)stream<.*>::'
    icp = [(fs + r'is_open', lambda g, st, a, rt, n: int(opened[0])),
           (r'^std::basic_ios<.*>::(?:operator!|fail)\b', lambda g, st, a, rt, n: int(not opened[0])), (r'^std::basic_ios<.*>::(?:bad|eof)\b', lambda g, st, a, rt, n: 0),
           (r'^std::basic_ios<.*>::(?:operator bool|good)\b', lambda g, st, a, rt, n: int(opened[0] and not ended[0])),
           (fs, lambda g, st, a, rt, n: a[0] if rt.k != 'void' else None),
           (r'std::(?:ios_base|basic_ios<.*>)::(?:setf|unsetf|precision|flags|width|fill)|std::operator<<.*std::_Set|std::(?:ostream|basic_ostream<.*>)::operator<<\(std::ios_base& ', lambda g, st, a, rt, n: a[0] if rt.k == 'ptr' else 0 if rt.k != 'void' else None),
           (r'std::(?:istream|basic_istream<.*>|basic_istream<.*>&) ?&? std::getline<|^std::getline<', getline),
           (r'^std::_Sp_counted_base<.*>::_M_release\(', lambda g, st, a, rt, n: None)] + streams([])

    def one(what, mm, f, fx, fatal, nout=40, key=None):
        ended[0] = False
        R = c.run(mm, f, nout, fx, intercepts=icp, max_steps=8_000_000)
        if fatal:
            hit = R.dead or (not R.und and any(len(a[0]) and c.feasible(a[0], n=1) for a in R.st.aborts))
            if R.und: c.undecided('fatal', '%s: %s' % (what, R.und)); return
            c.true('fatal', what, hit, 'control returns to the caller of %s' % f)
        else:
            if R.und: c.undecided('no failure', '%s: %s' % (what, R.und)); return
            c.true('no failure', what, not R.dead and not any(c.feasible(a[0], n=1) for a in R.st.aborts), 'the program is ended although nothing is wrong: %s' % [a[1] for a in R.st.aborts][:2])

    nan = vg.fc('nan')
    def v(*xs): return {k: x if not isinstance(x, (int, float)) else F(x) for k, x in enumerate(xs)}
    J = []
    for f, w in (('writer', 'default writer'), ('ewriter', 'energy writer'), ('cfile', 'shared file'), ('cfiles', 'shared file named by a string'), ('cfilem', 'shared file made by the helper'), ('config', 'configuration file'), ('configs', 'configuration file named by a string')):
        J.append(('%s that cannot be opened' % w, m, f, {}, True, False)); J.append(('%s that can' % w, m, f, {}, False, True))
    J += [('key that the configuration lacks', m, 'confkey', {}, True, True), ('integer key that the configuration lacks', m, 'confint', {}, True, True)]
    for k in (0, 1, 2, 4, 5): J.append(('command line of %d words for two values' % k, m, 'cmdline', {0: k}, True, True))
    for k in (0, 1, 3): J.append(('command line of %d words for one value' % k, m, 'cmdline1', {0: k}, True, True))
    # orbits
    for p, e, w in ((0, F(1, 2), 'zero semi-latus rectum'), (-1, F(1, 2), 'negative semi-latus rectum'), (F(-1, 10**9), 2, 'slightly negative semi-latus rectum'), (1, F(-1, 2), 'negative eccentricity'), (1, F(-1, 10**9), 'slightly negative eccentricity'), (1, nan, 'eccentricity that is not a number')):
        J.append(('orbit of %s' % w, m, 'kepler', v(1, 1, p, e), True, True))
    for e in (0, F(1, 2), 1, 3): J.append(('orbit of eccentricity %s' % e, m, 'kepler', v(1, 1, 1, e), False, True))
    for a, e, w in ((-1, 2, 'a hyperbola'), (-1, F(1, 2), 'a negative axis'), (1, F(-1, 2), 'a negative eccentricity'), (1, 1, 'a parabola'), (0, F(1, 2), 'no extent')): J.append(('elliptic orbit with the elements of %s' % w, m, 'ellip', v(1, 1, a, e), True, True))
    J.append(('elliptic orbit', m, 'ellip', v(1, 1, 1, F(1, 2)), False, True))
    for e in (1, 2):
        J.append(('random anomaly of eccentricity %d' % e, m, 'knu', v(1, 1, 1, e), True, True)); J.append(('orbit of eccentricity %d at a random anomaly' % e, m, 'kran', v(1, 1, 1, e), True, True))
    for i in (0, 1):
        J += [('hyperbola without impact parameter', m, 'hyper', v(F(1, 2), F(1, 2), 1, 0, 1, i), True, True), ('hyperbola inside its periapsis', m, 'hyper', v(F(1, 2), F(1, 2), 1, F(3, 4), F(1, 8), i), True, True),
              ('hyperbola from no number', m, 'hyper', v(F(1, 2), F(1, 2), 1, F(3, 4), nan, i), True, True), ('hyperbola from infinity', m, 'hyper', v(F(1, 2), F(1, 2), 1, F(3, 4), vg.fc('inf'), i), True, True),
              ('hyperbola of a velocity that is no number', m, 'hyper', v(F(1, 2), F(1, 2), nan, F(3, 4), 1, i), True, True), ('hyperbola', m, 'hyper', v(F(1, 2), F(1, 2), 1, F(3, 4), 2, i), False, True)]
    for a in (0, -1, nan): J.append(('period of a semi-major axis of %s' % (a if a is not nan else 'no number'), m, 'period', v(1, 1, a), True, True))
    J.append(('period of an ellipse', m, 'period', v(1, 1, 2), False, True))
    for e in (2, F(3, 2)): J.append(('period of a hyperbola of eccentricity %s' % e, m, 'kperiod', v(1, 1, 1, e), True, True))
    J.append(('period of an elliptic orbit', m, 'kperiod', v(1, 1, 1, F(1, 2)), False, True))
    J += [('period of an unbound pair', m, 'pperiod', v(1, 1, 1, 3), True, True), ('period of a bound pair', m, 'pperiod', v(1, 1, 1, 1), False, True)]
    J.append(('time to periapsis of an orbit of no kind', m, 'kmut', v(1, 1, 1, F(1, 2), 3), True, True))
    for k in (0, 1, 2): J.append(('time to periapsis of an orbit of kind %d' % k, m, 'kmut', v(1, 1, 1, (F(1, 2), 1, 2)[k], k), False, True))
    for f in ('e2t', 't2e', 'e2m', 'm2e', 't2m', 'm2t'):
        for e, w in ((F(-1, 2), 'negative'), (F(-1, 10**9), 'slightly negative'), (nan, 'not a number')): J.append(('anomaly of an eccentricity that is %s (%s)' % (w, f), m, f, v(e, 1), True, True))
        for e in (F(1, 2), 1, 2) if f[0] != 'm' else (1,): J.append(('anomaly of eccentricity %s (%s)' % (e, f), m, f, v(e, F(1, 2)), False, True))
    J.append(('true anomaly beyond the asymptote', m, 't2e', v(2, 3), True, True)); J.append(('true anomaly before the asymptote', m, 't2e', v(2, -3), True, True))
    # iterators, measures, regularisation, arrays
    for f, w in (('wo3', 'worst offender'), ('wo2', 'worst offender of differences'), ('rms3', 'root mean square'), ('mr2', 'maximum ratio of differences'), ('mr3', 'maximum ratio')): J.append(('%s of arrays it does not support' % w, m, f, {}, True, True))
    for f, w in (('okwo3', 'worst offender'), ('okwo2', 'worst offender of differences')): J.append(('%s of numbers' % w, m, f, v(1, 2, 3, 4), False, True))
    J.append(('three errors for the step controller', m, 'pid3', v(1, 1, 1), True, True)); J.append(('two errors for the step controller', m, 'okpid', v(1, 1), False, True))
    for f in ('regup', 'reguv'): J.append(('undefined regularisation (%s)' % f, m, f, {}, True, True))
    for f in ('wsimple', 'wregu', 'wchain', 'warchain'):
        for k in (-1, 1, 2, 3, 14):
            J.append(('array %+d elements off (%s)' % (k, f), m, f, {0: k if k > 0 else k % 2**64}, True, True))
        J.append(('array of the right size (%s)' % f, m, f, {0: 0}, False, True))
    J.append(('corrector that never converges', mi, 'exhaust', {}, True, True))
    fb = {20: F(3, 4), 21: 1}
    for a in range(12):
        for k in range(8): fb[32 + 16 * a + k] = 4; fb[32 + 16 * a + 8 + k] = F(9, 10)
    J.append(('extrapolation that never converges', mb, 'dkd', fb, True, True)); J.append(('kick first extrapolation that never converges', mb, 'kdk', fb, True, True))
    ff = {20: F(3, 4), 21: 2}
    for k in range(361): ff[32 + k] = 4
    for k in range(600): ff[400 + k] = F(9, 10)
    J.append(('plain function that never converges', mb, 'func', ff, True, True))
    fr = {k: F(0) for k in range(0, 16)}; fr[1] = F(1, 8); fr[11] = 1; fr[4] = F(10); 
    for k in range(4): fr[80 + k] = F(10**30); fr[120 + k] = F(1, 8); fr[40 + k] = F(1)
    for f in ('runtol', 'runplain'): J.append(('run with no end (%s)' % f, mr, f, dict(fr), True, True))
    for f, ok in (('ddot', lambda a, b: a == b), ('dscale', lambda a, b: a <= b), ('ddiv', lambda a, b: a <= b)):
        for a, b in ((2, 3), (3, 2), (2, 2), (0, 1), (1, 0)): J.append(('debug build: arrays of %d and %d (%s)' % (a, b, f), md, f, {0: a, 1: b}, not ok(a, b), True))

    def job(x):
        opened[0] = x[5]; one(*x[:5])
    c.parallel([x for x in J], job)
    text = []
    for d, _, fl in os.walk(SRC):
        if 'taskflow' in d: continue
        for f in fl:
            if not f.endswith(('.hpp', '.h')): continue
            blk = False
            for i, l in enumerate(open(os.path.join(d, f), errors='replace'), 1):
                if blk or l.lstrip().startswith('//'): blk = blk and '*/' not in l; continue
                if l.lstrip().startswith('/*') and '*/' not in l: blk = True; continue
                if re.search(r'\bspacehub_abort\s*\(', l) and '#define' not in l: text.append((os.path.join(d, f), i))
    seen = {(os.path.realpath(l[0]), l[1]) for l in sites if l}
    c.note('failure sites in the text that no driver instantiates: ' + (', '.join('%s:%d' % (os.path.relpath(f, SRC), i) for f, i in text if (f, i) not in seen and (f, i - 1) not in seen) or 'none'))
    return c.finish(dict(failure_sites=sorted('%s:%s' % (os.path.relpath(l[0], SRC), l[1]) for l in sites if l)))
