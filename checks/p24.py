from hx import *
import numpy as np
np.seterr(all='ignore')
TY = dict(d=np.float64, f=np.float32, l=np.longdouble)
CAST = dict(double=np.float64, float=np.float32, fp80=np.longdouble)


LIBM = dict(sqrt=np.sqrt, acos=np.arccos, asin=np.arcsin, atan=np.arctan, atan2=np.arctan2, sin=np.sin, cos=np.cos, tan=np.tan, exp=np.exp, log=np.log, hypot=np.hypot, cbrt=np.cbrt)


class Ieee:
    """value numbers interpreted with IEEE operations: every operation is carried out at the width of its operands, so that an identity which holds only in real arithmetic does not equate two terms"""
    def __init__(s, leaves): s.v = leaves; s.memo = {}

    def ev(s, t):
        if isinstance(t, (int, str)): return t
        if not isinstance(t, T): raise Undecided('value %r' % (t,))
        if t in s.memo: return s.memo[t]
        o = t.op; a = t.args
        if o == 'in': r = s.v[a[0]]
        elif o == 'fc':
            f = a[0]
            r = ('const', f)
        elif o == 'ite': r = s.ev(a[1] if s.ev(a[0]) else a[2])
        elif o == 'fpcast': r = s.lift(s.ev(a[1]), CAST[a[0]])
        else:
            x = [s.ev(y) for y in a]
            if o in ('fadd', 'fsub', 'fmul', 'fdiv', 'flt', 'feq'):
                if isinstance(x[0], tuple) and isinstance(x[1], tuple) and o in ('fadd', 'fsub', 'fmul') and isinstance(x[0][1], Fraction) and isinstance(x[1][1], Fraction):
                    u, w = x[0][1], x[1][1]
                    s.memo[t] = ('const', u + w if o == 'fadd' else u - w if o == 'fsub' else u * w); return s.memo[t]
                x, y = s.pair(*x)
                if type(x) is not type(y): raise Undecided('operation on different widths')
                r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y, 'flt': lambda: int(x < y), 'feq': lambda: int(x == y)}[o]()
            elif o == 'fneg': r = -x[0] if not isinstance(x[0], tuple) else ('const', -x[0][1])
            elif o == 'fabs': r = abs(x[0]) if not isinstance(x[0], tuple) else ('const', abs(x[0][1]))
            elif o == 'fma': raise Undecided('a contracted multiplication and addition')
            elif o == 'not': r = 1 - x[0]
            elif o == 'and': r = x[0] & x[1]
            elif o == 'xor': r = x[0] ^ x[1]
            elif o == 'or': r = x[0] | x[1]
            elif o == 'isnan': r = int(x[0] != x[0]) if not isinstance(x[0], tuple) else 0
            elif o in ('fmax', 'fmin'):
                x, y = s.pair(*x); r = max(x, y) if o == 'fmax' else min(x, y)
            elif o == 'copysign': x, y = s.pair(*x); r = np.copysign(x, y)
            elif o in LIBM: r = LIBM[o](*[s.lift(y, np.float64) if isinstance(y, tuple) else y for y in x])
            elif o == 'i2f': r = np.float64(x[2])
            elif o == 'bin': r = int(bool(x[0]))
            elif o == 'ieq': r = int(x[1] == x[2])
            else: raise Undecided('operation %s in a compensated number' % o)
        s.memo[t] = r
        return r

    def lift(s, x, ty):
        if isinstance(x, tuple):
            f = x[1]
            if isinstance(f, Fraction): return ty(f.numerator) / ty(f.denominator)
            return ty(f)
        return ty(x)

    def pair(s, x, y):
        if isinstance(x, tuple) and isinstance(y, tuple): return np.float64(float(x[1])), np.float64(float(y[1]))
        if isinstance(x, tuple): return s.lift(x, type(y)), y
        if isinstance(y, tuple): return x, s.lift(y, type(x))
        return x, y


class Ref:
    """the published recurrences"""
    def __init__(s, fl, t, r, e, e2): s.f = fl; s.t = t; s.r = r; s.e = e; s.e2 = e2

    def add(s, x):
        t = s.t
        if s.f == 'k':
            y = x - s.e; z = s.r + y; s.e = (z - s.r) - y; s.r = z; return
        two = lambda a, b: (lambda z: (z, ((a - z) + b) if abs(b) < abs(a) else ((b - z) + a)))(a + b)
        if s.f == 'n':
            s.r, s.e = two(s.r, x + s.e); return
        c, s.e2 = two(x, s.e + s.e2)
        s.r, s.e = two(s.r, c)

    def reset(s, v): s.r = v; s.e = s.t(0); s.e2 = s.t(0)
    def copy(s, o): s.r, s.e, s.e2 = o.r, o.e, o.e2


ARITH = dict(addk='+b', subk='-b', addx='+x', subx='-x', addself='+a', subself='-a', seq2='+x+y', seq3='+x-y+b', seqs='-x-y', fresh='f+y-b', seq4='+x+y+b-x', ret='+x+y')
OTHER = 'mulk divk mulx divx mulself divself muladd neg ctor assignx copy assignk conv zero read write bin'.split()
FL = dict(k='Kahan', n='Neumaier', e='Klein')


def run():
    c = Check('P24', 'Compensated numbers', 'value, error and higher error of a compensated number after every operation and after sequences of additions, as value numbers of floating-point operations '
              '(no real-arithmetic identities), against the published recurrence interpreted with IEEE operations at the width of the flavour; no fast-math permission on any operation', min_obl=400)
    vg.STRICT[0] = True
    m = c.compile('kahan.cpp')
    txt = open(m.path).read()
    bad = re.findall(r'= f(?:add|sub|mul|div|neg|cmp)(?: (?:fast|reassoc|nnan|ninf|nsz|arcp|contract|afn))+', txt)
    c.true('fast math', 'no operation may be reassociated', not bad, 'floating-point operation with permission to reassociate: %s' % bad[:2])
    c.true('fast math', 'no function is compiled with unsafe floating-point attributes', not re.search(r'"(unsafe-fp-math|no-signed-zeros-fp-math|approx-func-fp-math|no-nans-fp-math)"="true"', txt), 'function attribute allows unsafe floating-point mathematics')
    src = open(REPO + '/src/kahan-number.hpp').read()
    src = re.sub(r'//[^\n]*|/\*.*?\*/', '', src, flags=re.S)
    c.true('fast math', 'kahan-number.hpp does not ask for unsafe optimisation', not re.search(r'fast-math|associative-math|unsafe-math|reassociate|optimize\s*\(|GCC\s+optimize|FP_CONTRACT|float_control|fp\s+contract', src), 'a pragma or attribute relaxes floating-point semantics')
    rng = c.rng

    def val(t):
        k = rng.random()
        if k < .06: return t(0)
        if k < .15: return t(rng.choice((1, -1, 2, 0.5, -3, 1e8)))
        e = rng.randint(-30, 30) if k < .8 else rng.randint(-3, 3)
        return t(rng.choice((-1, 1)) * rng.uniform(1, 2)) * t(2.0) ** t(e)

    def draw(t):
        L = {}
        for i in range(8): L['in[%d]' % i] = np.float64(np.float32(val(np.float64)) if t is np.float32 else val(np.float64))
        for b in (0, 3):
            eps = np.float64(2.0) ** (-rng.randint(20, 26) if t is np.float32 else -rng.randint(50, 56))
            for q in (1, 2):
                if rng.random() < .75: L['in[%d]' % (b + q)] = np.float64(np.float32(L['in[%d]' % b] * eps ** q * rng.uniform(-1, 1)) if t is np.float32 else L['in[%d]' % b] * eps ** q * rng.uniform(-1, 1))
                elif rng.random() < .5: L['in[%d]' % (b + q)] = np.float64(0)
        if rng.random() < .12: L['in[6]'] = L['in[0]'] * rng.choice((1, -1))
        if rng.random() < .12: L['in[3]'] = L['in[0]'] * rng.choice((1, -1))
        return L

    def intercept(fl, ty):
        def rd(g, st, args, rt, name):
            p = args[1]; w = st.wcells(p.obj); sz = dict(d=8, f=4, l=16)[ty]
            v = mk('in', 'in[7]', 'f')
            if ty != 'd': v = mk('fpcast', dict(f='float', l='fp80')[ty], v)
            w[p.off] = (sz, v)
            return args[0]
        def wr(g, st, args, rt, name):
            st.ev.append(('ev_out', [args[1]], None))
            return args[0]
        return [(r'^std::(istream|basic_istream<char.*>)::(operator>>\(|_M_extract<)|^std::istream& std::istream::_M_extract', rd),
                (r'^std::(ostream|basic_ostream<char.*>)::(operator<<\((float|double|long double)|_M_insert<)|^std::ostream& std::ostream::_M_insert', wr)]

    def job(j):
        fl, ty, op = j
        f = '%s%s_%s' % (fl, ty, op); t = TY[ty]
        nm = '%s<%s> %s' % (FL[fl], dict(d='double', f='float', l='long double')[ty], op)
        R = c.run(m, f, 16, {}, intercepts=intercept(fl, ty))
        if not c.usable(R, 'recurrence', nm): return
        cell = lambda k: R.cells.get(16 * k, (0, UNDEF))[1]
        cells = [cell(k) for k in range(8)]
        tol = lambda x: vg.tofloat(x)
        outs = [x for x in R.st.ev if x[0] == 'ev_out'] if op == 'write' else None
        N = 200 if c.thorough else 60
        kind = 'recurrence' if op in ARITH else 'other operations'
        def same(x, y):
            if isinstance(x, tuple): x = np.longdouble(float(x[1]))
            return bool(np.longdouble(x) == np.longdouble(y)) or bool(x != x and y != y)
        bad = {}; done = {}
        for _ in range(N):
            L = draw(t); ev = Ieee(L)
            a = Ref(fl, t, *[t(L['in[%d]' % i]) for i in range(3)]); b = Ref(fl, t, *[t(L['in[%d]' % i]) for i in range(3, 6)])
            x, y = t(L['in[6]']), t(L['in[7]'])
            want = None; extra = []; alt = None; b0 = (b.r, b.e, b.e2)
            if op in ARITH:
                prog = ARITH[op]
                if prog[0] == 'f': a.reset(x); prog = prog[1:]
                for sg, w in zip(prog[::2], prog[1::2]):
                    v = dict(b=b.r, x=x, y=y, a=a.r)[w]
                    a.add(v if sg == '+' else -v)
            elif op in ('mulk', 'mulx', 'mulself', 'divk', 'divx', 'divself', 'muladd'):
                k = dict(k=b.r, x=x).get(op[3:4] if op[3:] in ('k', 'x') else 'x' if op == 'muladd' else '', a.r)
                g = (lambda u, k=k: u / k) if op[:3] == 'div' else (lambda u, k=k: u * k)
                if k == 0 and op[:3] == 'div': continue
                alt = Ref(fl, t, g(a.r), t(0), t(0))     # the error may be dropped with the scaling
                a = Ref(fl, t, g(a.r), g(a.e), g(a.e2))
                if op == 'muladd': a.add(y); alt.add(y)
            elif op == 'neg': extra = [(-a.r,), (t(0), -a.e)]
            elif op in ('ctor', 'assignx'): a.reset(x)
            elif op in ('copy', 'assignk'): a.copy(b)
            elif op == 'conv': extra = [(b.r,), (b.r + x,)]
            elif op == 'zero': a.e = t(0); a.e2 = t(0)
            elif op == 'read': a.reset(t(L['in[7]']))
            elif op == 'bin': extra = [(a.r + b.r,), (a.r * b.r,)]
            exp = [('value', 0, a.r), ('error', 1, a.e)] + ([('error of the error', 2, a.e2)] if fl == 'e' else [])
            if alt is not None:
                alte = {0: alt.r, 1: alt.e, 2: alt.e2}
            exp += [('operand value', 3, b0[0]), ('operand error', 4, b0[1])] + ([('operand error of the error', 5, b0[2])] if fl == 'e' else [])
            try:
                got = {k: ev.ev(tol(cells[k])) if cells[k] is not UNDEF else None for k in range(8)}
                if op == 'write': got['w'] = ev.ev(tol(outs[0][1][0])) if len(outs) == 1 else None
            except Undecided as e: c.undecided(kind, '%s: %s' % (nm, e)); return
            okalt = alt is not None and all(got[k] is not None and same(got[k], alte[k]) for _, k, _ in exp[:3 if fl == 'e' else 2])
            for w, k, v in exp:
                done[w] = k
                if got[k] is None or not same(got[k], v) and not (okalt and k < 3): bad.setdefault(w, (k, got[k], v, L))
            for q, vs in enumerate(extra):
                w = 'result %d' % (q + 1); done[w] = 6 + q
                if got[6 + q] is None or not any(same(got[6 + q], v) for v in vs): bad.setdefault(w, (6 + q, got[6 + q], vs[0], L))
            if op == 'write':
                done['printed value'] = 'w'
                if got['w'] is None or not same(got['w'], b.r): bad.setdefault('printed value', (0, got['w'], b.r, L))
        for w in done:
            c.decided(kind); c.how['IEEE interpretation'] = c.how.get('IEEE interpretation', 0) + 1
            if w in bad:
                k, g, v, L = bad[w]
                tm = cells[k] if isinstance(k, int) else None
                c.violation(kind, '%s: %s' % (nm, w), 'code %s, recurrence %s at %s; value number %s' % (g, v, {q: float(z) for q, z in list(L.items())[:8]}, vg.show(tm, 7)[:300] if isinstance(tm, T) else tm), tloc(tm) if isinstance(tm, T) else None)
            elif len(c.samples) < 3 and isinstance(cells[done[w]] if isinstance(done[w], int) else None, T):
                c.samples.append({'kind': kind, 'obligation': '%s: %s' % (nm, w), 'value_number': vg.show(cells[done[w]], 6)[:300], 'decided_by': 'IEEE interpretation over %d draws' % N})
    jobs = [(fl, ty, op) for fl in FL for ty in TY for op in list(ARITH) + OTHER]
    c.parallel(jobs, job)
    return c.finish()
