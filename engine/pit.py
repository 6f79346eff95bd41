"""Deciding equality of value numbers.

Two terms are equal when they are the same hash-consed node, or when they agree as functions of their leaves.
The second test is random interpretation (Gulwani & Necula, POPL 2004): the *terms* (not the program) are
interpreted over randomly drawn reals at 50 digits; a disagreement is a definite inequality and its assignment is
the witness, agreement on every draw means equality of the algebraic functions up to probability ~10^-12 per draw."""
import random, zlib
from fractions import Fraction
import mpmath
from mpmath import mp, mpf
import vg
from vg import T, P, mk, fbin, fneg, fc, ite, flt, feq, bnot, band, bor

mp.dps = 50
NAN = mpf('nan')
INF = mpf('inf')


class Opaque(Exception):
    pass


def rnd(rng, lo, hi):
    return mpf(lo) + (mpf(hi) - mpf(lo)) * mpf(rng.getrandbits(60)) / mpf(2**60)


def default_gen(name, typ, rng):
    if typ == 'f': return rnd(rng, 0.2, 2.0) * rng.choice((-1, 1))
    if typ == 'i1': return rng.getrandbits(1)
    return rng.randrange(0, 8)


class Env:
    def __init__(s, rng, gen=None, fixed=None):
        s.rng = rng; s.gen = gen; s.vals = dict(fixed or {}); s.memo = {}; s.conds = {}

    def leaf(s, t):
        nm = t.args[0]
        v = s.vals.get(nm)
        if v is None:
            if s.gen is not None: v = s.gen(nm, t.args[1] if len(t.args) > 1 else 'f', s.rng)
            if v is None: v = default_gen(nm, t.args[1] if len(t.args) > 1 else 'f', s.rng)
            s.vals[nm] = v
        return v

    def ev(s, t):
        if not isinstance(t, T):
            if isinstance(t, bool): return int(t)
            if isinstance(t, int): return t
            if isinstance(t, P): return ('ptr', id(t.obj), s.ev(t.off))
            if isinstance(t, tuple): return tuple(s.ev(x) for x in t)
            return ('x', repr(t))
        memo = s.memo
        r = memo.get(t)
        if r is not None: return r
        # iterative post-order
        stack = [t]
        while stack:
            x = stack[-1]
            if x in memo: stack.pop(); continue
            pend = None
            if x.op == 'ite':
                c = x.args[0]
                if isinstance(c, T):
                    if c not in memo: stack.append(c); continue
                    cv = memo[c]
                else: cv = c
                s.conds.setdefault(x.args[0], set()).add(bool(cv))
                y = x.args[1] if cv else x.args[2]
                if isinstance(y, T):
                    if y not in memo: stack.append(y); continue
                    memo[x] = memo[y]
                else: memo[x] = s.ev(y)
                stack.pop(); continue
            ok = True
            for a in x.args:
                if isinstance(a, T) and a not in memo: stack.append(a); ok = False
            if not ok: continue
            stack.pop()
            memo[x] = s.node(x)
        return memo[t]

    def node(s, t):
        op = t.op
        if op == 'in': return s.leaf(t)
        if op == 'fc':
            v = t.args[0]
            if isinstance(v, Fraction): return mpf(v.numerator) / mpf(v.denominator)
            return {'inf': INF, '-inf': -INF, 'nan': NAN}[v]
        a = [s.memo[x] if isinstance(x, T) else s.ev(x) for x in t.args]
        f = OPS.get(op)
        if f is not None:
            try: return f(*a)
            except ZeroDivisionError: return NAN
            except (ValueError, TypeError, OverflowError):
                if any(isinstance(x, (tuple, str)) for x in a): return s.opq(op, a)
                return NAN
        return s.opq(op, a)

    def opq(s, op, a):
        """an uninterpreted function of its arguments"""
        key = repr((op, tuple(mpmath.nstr(x, 30) if isinstance(x, mpf) else x for x in a)))
        h = zlib.crc32(key.encode()) * 2**32 + zlib.adler32(key.encode())
        r = random.Random(h)
        return rnd(r, 0.2, 2.0) * r.choice((-1, 1))


def tab(i, off):
    v, z = vg.TABLES[i]; off = vg.sgn(off, 64)
    if off % z or not 0 <= off < z * len(v): return NAN
    x = v[off // z].args[0]
    return mpf(x.numerator) / mpf(x.denominator) if isinstance(x, Fraction) else {'inf': INF, '-inf': -INF, 'nan': NAN}[x]


def fl(x):
    if isinstance(x, mpf): return x
    if isinstance(x, int): return mpf(x)
    raise TypeError


def fdiv(a, b):
    a = fl(a); b = fl(b)
    if b == 0: return NAN if a == 0 or a != a else (INF if a > 0 else -INF)
    return a / b


def real(fn, lo=None, hi=None):
    def g(x):
        x = fl(x)
        if x != x: return NAN
        if lo is not None and x < lo or hi is not None and x > hi: return NAN
        r = fn(x)
        return r
    return g


def sx(x, w): return vg.sgn(x, w)


def fpow(a, b):
    a = fl(a); b = fl(b)
    if a < 0 and b != mpmath.floor(b): return NAN
    if a == 0 and b < 0: return INF
    return mpmath.power(a, b)


OPS = {
    'tab': tab,
    'fadd': lambda a, b: fl(a) + fl(b), 'fsub': lambda a, b: fl(a) - fl(b), 'fmul': lambda a, b: fl(a) * fl(b),
    'fdiv': fdiv, 'fneg': lambda a: -fl(a), 'sqrt': real(mpmath.sqrt, 0), 'fabs': real(abs), 'tofloat': real(lambda x: x),
    'sin': real(mpmath.sin), 'cos': real(mpmath.cos), 'tan': real(mpmath.tan), 'asin': real(mpmath.asin, -1, 1),
    'acos': real(mpmath.acos, -1, 1), 'atan': real(mpmath.atan), 'atan2': lambda a, b: mpmath.atan2(fl(a), fl(b)),
    'sinh': real(mpmath.sinh), 'cosh': real(mpmath.cosh), 'tanh': real(mpmath.tanh), 'asinh': real(mpmath.asinh),
    'acosh': real(mpmath.acosh, 1), 'atanh': real(mpmath.atanh, -1, 1), 'exp': real(mpmath.exp), 'exp2': real(lambda x: mpf(2)**x),
    'log': real(mpmath.log, 0), 'log2': real(lambda x: mpmath.log(x, 2), 0), 'log10': real(mpmath.log10, 0), 'log1p': real(mpmath.log1p, -1),
    'expm1': real(mpmath.expm1), 'cbrt': real(lambda x: mpmath.sign(x) * mpmath.cbrt(abs(x))), 'pow': fpow,
    'floor': real(mpmath.floor), 'ceil': real(mpmath.ceil), 'trunc_f': real(lambda x: mpmath.sign(x) * mpmath.floor(abs(x))),
    'round': real(lambda x: mpmath.sign(x) * mpmath.floor(abs(x) + mpf(1) / 2)), 'rint': real(mpmath.nint), 'nearbyint': real(mpmath.nint),
    'fmod': lambda a, b: fl(a) - fl(b) * (lambda q: mpmath.sign(q) * mpmath.floor(abs(q)))(fl(a) / fl(b)),
    'hypot': lambda a, b: mpmath.sqrt(fl(a)**2 + fl(b)**2), 'erf': real(mpmath.erf),
    'fmax': lambda a, b: b if a < b else a, 'fmin': lambda a, b: b if b < a else a,
    'copysign': lambda a, b: abs(a) if b >= 0 else -abs(a),
    'flt': lambda a, b: int(fl(a) < fl(b)), 'feq': lambda a, b: int(fl(a) == fl(b)), 'isnan': lambda a: int(a != a),
    'isinf': lambda a: int(abs(a) == INF), 'not': lambda a: 1 - int(bool(a)), 'and': lambda a, b: int(bool(a) and bool(b)),
    'bin': lambda a: int(a) & 1, 'ieq': lambda w, a, b: int(a == b), 'iult': lambda w, a, b: int(a < b),
    'islt': lambda w, a, b: int(sx(a, w) < sx(b, w)),
    'iadd': lambda w, a, b: (a + b) & (1 << w) - 1, 'isub': lambda w, a, b: (a - b) & (1 << w) - 1,
    'imul': lambda w, a, b: (a * b) & (1 << w) - 1, 'iudiv': lambda w, a, b: a // b, 'iurem': lambda w, a, b: a % b,
    'iand': lambda w, a, b: a & b, 'ior': lambda w, a, b: a | b, 'ixor': lambda w, a, b: a ^ b,
    'ishl': lambda w, a, b: (a << b) & (1 << w) - 1, 'ilshr': lambda w, a, b: a >> b, 'iashr': lambda w, a, b: (sx(a, w) >> b) & (1 << w) - 1,
    'isdiv': lambda w, a, b: vg.ibin('sdiv', w, a, b), 'isrem': lambda w, a, b: vg.ibin('srem', w, a, b),
    'i2f': lambda k, w, a: mpf(sx(a, w) if k == 's' else a),
    'f2i': lambda w, a: int(mpmath.sign(a) * mpmath.floor(abs(a))) & (1 << w) - 1,
    'zext': lambda w, n, a: a, 'sext': lambda w, n, a: sx(a, w) & (1 << n) - 1, 'trunc': lambda w, a: a & (1 << w) - 1 if isinstance(a, int) else a,
}
# trunc is shared by the integer cast (width, value) and the libm function (value)
OPS['trunc'] = lambda *a: (a[1] & (1 << a[0]) - 1) if len(a) == 2 and isinstance(a[1], int) else (OPS['trunc_f'](a[0]) if len(a) == 1 else a[1])


def close(a, b, tol):
    if isinstance(a, mpf) or isinstance(b, mpf):
        try: a = fl(a); b = fl(b)
        except TypeError: return False
        if a != a or b != b: return a != a and b != b
        if a == b: return True
        if abs(a) == INF or abs(b) == INF: return False
        return abs(a - b) <= tol * max(abs(a), abs(b)) or abs(a - b) <= mpf(10)**-28
    return a == b


class Verdict:
    __slots__ = ('ok', 'witness', 'a', 'b', 'how', 'informative')


def equal(a, b, rng, gen=None, n=6, tol=mpf(10)**-9, need=2, scale=None, envs=None):
    """-> Verdict.  ok True / False / None (no informative draw)"""
    v = Verdict(); v.witness = None; v.a = v.b = None; v.informative = 0
    if a is b or (isinstance(a, int) and a == b) or (isinstance(a, P) and a == b): v.ok = True; v.how = 'identical value number'; return v
    if a is vg.UNDEF or b is vg.UNDEF: v.ok = False; v.how = 'value never written'; return v
    for k in range(n):
        if envs is None: e = Env(rng, gen)
        else:
            if len(envs) <= k: envs.append(Env(rng, gen))
            e = envs[k]
        x = e.ev(a); y = e.ev(b)
        xx = x
        t = tol
        if scale is not None and isinstance(x, mpf) and isinstance(y, mpf) and x == x and y == y:
            if abs(x - y) <= tol * abs(scale): v.informative += 1; continue
        if not close(x, y, t):
            v.ok = False; v.how = 'random interpretation'; v.witness = e.vals; v.a = x; v.b = y; return v
        if not (isinstance(x, mpf) and x != x): v.informative += 1
    v.ok = True if v.informative >= need else None
    v.how = 'random interpretation over %d draws' % v.informative
    return v


def leaves(t, cache={}):
    """(leaves, numeric constants) of a condition"""
    r = cache.get(t)
    if r is not None: return r
    seen = set(); out = []; cs = set(); stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x in seen: continue
        seen.add(x)
        if x.op == 'in': out.append(x)
        elif vg.isfc(x) and isinstance(x.args[0], (int, Fraction)): cs.update(z for z in (mpf(x.args[0].numerator) / mpf(x.args[0].denominator),) if mpf(10)**-12 < abs(z) < mpf(10)**12)
        else: stack.extend(y for y in x.args if isinstance(y, T))
        if len(seen) > 3000: break
    if len(cache) > 20000: cache.clear()
    cache[t] = (out, sorted(cs)[:20])
    return cache[t]


def onesided(envs):
    """conditions of selected values that came out the same way in every draw, with that way"""
    got = {}
    for e in envs:
        for c, v in e.conds.items():
            if isinstance(c, T): got.setdefault(c, set()).update(v)
    return [(c, next(iter(v))) for c, v in got.items() if len(v) == 1]


def aim(c, way, envs, gen, rng, tries=60):
    """draws, inside the domain of the generator, in which condition c comes out the other way.
    gen.dom(name) gives the open interval a leaf with a domain may be taken from (None: only redraws), gen.ok(draw) excludes
    singular states"""
    ls, cs = leaves(c)
    if not ls: return None
    dom = getattr(gen, 'dom', None); ok = getattr(gen, 'ok', None); held = {}
    for k in range(tries):
        vals = dict(envs[rng.randrange(len(envs))].vals) if envs else {}
        free = []
        for l in ls:
            nm = l.args[0]; ty = l.args[1] if len(l.args) > 1 else 'f'
            g = gen(nm, ty, rng) if gen is not None else None
            if g is not None:
                if ty == 'f' and dom is not None and nm not in held: held[nm] = dom(nm)
                if held.get(nm) is not None: free.append(nm)
                elif rng.random() < .7: vals[nm] = g
            elif ty == 'f': free.append(nm)
            elif rng.random() < .5: vals.pop(nm, None)
        if free:
            for nm in rng.sample(free, rng.randrange(1, min(3, len(free)) + 1)):
                v = vals.get(nm, mpf(1)); r = rng.randrange(9); d = held.get(nm)
                if r == 0: v = mpf(0)
                elif r == 1: v = -v
                elif r == 2 and len(free) > 1: v = vals.get(rng.choice(free), v)
                elif r < 5 and cs: v = rng.choice(cs) * rng.choice((1, 1, mpf('.99'), mpf('1.01'), -1, mpf('.5'), 2))
                elif r == 5 and d is not None:
                    w = mpf(10)**-rng.choice((1, 2, 3, 4, 6, 8, 10))
                    v = d[0] + w if rng.random() < .5 or d[1] is None else d[1] - w
                else: v = v * mpf(10)**rng.choice((-8, -4, -2, -1, 1, 1, 2, 4, 8))
                if d is not None and not (d[0] < v and (d[1] is None or v < d[1])):
                    if not (v == d[0] == 0 and d[1] is None): continue     # masses and radii may vanish
                vals[nm] = v
        e = Env(rng, gen, vals)
        try:
            if bool(e.ev(c)) != way and (ok is None or ok(e)): return e
        except (ArithmeticError, TypeError, ValueError): pass
    return None


# ------------------------------------------------------------------ specification expressions
class E:
    """a term with operators, to write specifications in"""
    __slots__ = ('t',)

    def __init__(s, t): s.t = t.t if isinstance(t, E) else t if isinstance(t, T) else fc(Fraction(t) if not isinstance(t, str) else Fraction(t))

    def _b(op, rev=False):
        def f(s, o):
            o = E(o)
            return E(fbin(op, o.t, s.t) if rev else fbin(op, s.t, o.t))
        return f
    __add__ = _b('fadd'); __radd__ = _b('fadd', True); __sub__ = _b('fsub'); __rsub__ = _b('fsub', True)
    __mul__ = _b('fmul'); __rmul__ = _b('fmul', True); __truediv__ = _b('fdiv'); __rtruediv__ = _b('fdiv', True)

    def __neg__(s): return E(fneg(s.t))

    def __pow__(s, n):
        r = E(1)
        for _ in range(abs(n)): r = r * s
        return r if n >= 0 else 1 / r

    def __lt__(s, o): return Bo(flt(s.t, E(o).t))
    def __gt__(s, o): return Bo(flt(E(o).t, s.t))
    def __le__(s, o): return Bo(bnot(flt(E(o).t, s.t)))
    def __ge__(s, o): return Bo(bnot(flt(s.t, E(o).t)))
    def eq(s, o): return Bo(feq(s.t, E(o).t))
    def __repr__(s): return repr(s.t)


class Bo:
    def __init__(s, t): s.t = t
    def __and__(s, o): return Bo(band(s.t, o.t))
    def __or__(s, o): return Bo(bor(s.t, o.t))
    def __invert__(s): return Bo(bnot(s.t))


def where(c, a, b): return E(ite(c.t, E(a).t, E(b).t))
def fn(name):
    def f(*a): return E(mk(name, *[E(x).t for x in a]))
    return f
sqrt, sin, cos, tan, atan, atan2, exp, log, fabs, acos, asin, sinh, cosh, tanh, floor, powf, cbrt = map(
    fn, 'sqrt sin cos tan atan atan2 exp log fabs acos asin sinh cosh tanh floor pow cbrt'.split())
def emax(a, b): a = E(a); b = E(b); return where(a < b, b, a)
def emin(a, b): a = E(a); b = E(b); return where(b < a, b, a)


class V:
    """3-vector of E"""
    __slots__ = ('x', 'y', 'z')
    def __init__(s, x, y, z): s.x = E(x); s.y = E(y); s.z = E(z)
    def __add__(s, o): return V(s.x + o.x, s.y + o.y, s.z + o.z)
    def __sub__(s, o): return V(s.x - o.x, s.y - o.y, s.z - o.z)
    def __mul__(s, k): return V(s.x * k, s.y * k, s.z * k)
    __rmul__ = __mul__
    def __truediv__(s, k): return V(s.x / k, s.y / k, s.z / k)
    def __neg__(s): return V(-s.x, -s.y, -s.z)
    def dot(s, o): return s.x * o.x + s.y * o.y + s.z * o.z
    def cross(s, o): return V(s.y * o.z - s.z * o.y, s.z * o.x - s.x * o.z, s.x * o.y - s.y * o.x)
    def norm2(s): return s.dot(s)
    def norm(s): return sqrt(s.norm2())
    def __iter__(s): return iter((s.x, s.y, s.z))
    def __getitem__(s, i): return (s.x, s.y, s.z)[i]
ZV = V(0, 0, 0)
def inp(name, typ='f'): return E(mk('in', name, typ))
