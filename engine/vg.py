"""Value graphs from LLVM IR.

A forward dataflow pass over a function's control-flow graph.  Every register and memory cell holds a
hash-consed term over the function's inputs (value numbering).  Where two branches of an undecided
condition meet, their values are joined into a gamma term ite(c, a, b); no path is enumerated and no
solver is called.  Loops whose trip count is a constant after constant propagation are peeled, as the
compiler's own unroller would; calls to functions with a body are inlined; calls to functions without
one are opaque and recorded as effects.  The result is one term per output, plus the effect tree."""
import sys, struct, re, threading
from fractions import Fraction
import ir

sys.setrecursionlimit(200000)


class Undecided(Exception):
    """the pass met something it has no transfer function for"""


class T:
    __slots__ = ('op', 'args', 'id', 'dbg')

    def __repr__(s): return show(s, 4)


_tab = {}
_cnt = [0]
CUR_DBG = [None]
TABLES = []; TABID = {}               # constant tables read at a computed index: (values, element size)
CUR_MOD = [None]


def mk(op, *args):
    k = (op,) + args
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.args = args; _cnt[0] += 1; t.id = _cnt[0]; t.dbg = (CUR_MOD[0], CUR_DBG[0])
        _tab[k] = t
    return t


class P:
    """pointer: object + byte offset"""
    __slots__ = ('obj', 'off')

    def __init__(s, obj, off): s.obj = obj; s.off = off

    def __eq__(s, o): return isinstance(o, P) and o.obj is s.obj and o.off == s.off

    def __hash__(s): return hash((id(s.obj), s.off))

    def __repr__(s): return '&%s+%s' % (s.obj.name, s.off)


class Fn:
    __slots__ = ('name',)
    _t = {}

    def __new__(cls, name):
        if name not in cls._t:
            o = object.__new__(cls); o.name = name; cls._t[name] = o
        return cls._t[name]

    def __repr__(s): return 'fn:' + s.name


class Undef:
    def __repr__(s): return 'undef'


UNDEF = Undef()


class Obj:
    __slots__ = ('name', 'size', 'kind', 'lazy', 'init')

    def __init__(s, name, size, kind, lazy=None):
        s.name = name; s.size = size; s.kind = kind; s.lazy = lazy; s.init = None


def show(t, d=6):
    if isinstance(t, T):
        if t.op == 'fc':
            v = t.args[0]
            return str(float(v)) if isinstance(v, Fraction) else str(v)
        if t.op == 'in': return '%s' % (t.args[0],)
        if d == 0: return '#%d' % t.id
        return '%s(%s)' % (t.op, ', '.join(show(a, d - 1) for a in t.args))
    return str(t)


# ------------------------------------------------------------------ term constructors
def fc(v):
    if isinstance(v, (int,)): v = Fraction(v)
    return mk('fc', v)


F0 = fc(0); F1 = fc(1); FNAN = fc('nan')


def isfc(t): return isinstance(t, T) and t.op == 'fc' and isinstance(t.args[0], Fraction)


STRICT = [False]   # strict: no algebraic simplification of floating-point operations


def fbin(op, a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    a = tofloat(a); b = tofloat(b)
    if a is FNAN or b is FNAN: return FNAN
    ca, cb = isfc(a), isfc(b)
    if op == 'fdiv' and ca and cb and b.args[0] == 0: return FNAN if a.args[0] == 0 else fc('inf' if a.args[0] > 0 else '-inf')
    if ca and cb and not STRICT[0]:
        x, y = a.args[0], b.args[0]
        if op == 'fadd': return fc(x + y)
        if op == 'fsub': return fc(x - y)
        if op == 'fmul': return fc(x * y)
        if op == 'fdiv' and y != 0: return fc(x / y)
    if not STRICT[0]:
        if op == 'fadd':
            if ca and a.args[0] == 0: return b
            if cb and b.args[0] == 0: return a
        elif op == 'fsub':
            if cb and b.args[0] == 0: return a
            if a is b: return F0
            if ca and a.args[0] == 0: return fneg(b)
        elif op == 'fmul':
            if ca:
                if a.args[0] == 0: return F0
                if a.args[0] == 1: return b
            if cb:
                if b.args[0] == 0: return F0
                if b.args[0] == 1: return a
        elif op == 'fdiv':
            if cb and b.args[0] == 1: return a
            if ca and a.args[0] == 0: return F0
    if op in ('fadd', 'fmul') and a.id > b.id: a, b = b, a
    return mk(op, a, b)


def fneg(a):
    if a is UNDEF: return a
    a = tofloat(a)
    if isfc(a): return fc(-a.args[0])
    if a.op == 'fneg': return a.args[0]
    return mk('fneg', a)


def tofloat(a):
    """a cell value read at floating type"""
    if isinstance(a, int):
        if a == 0: return F0
        d = struct.unpack('<d', struct.pack('<Q', a & (2**64 - 1)))[0]
        if d != d or d in (float('inf'), float('-inf')): return mk('fc', 'nan' if d != d else 'inf' if d > 0 else '-inf')
        return fc(Fraction(d))
    if isinstance(a, T):
        if a.op == 'ite' and (isinstance(a.args[1], int) or isinstance(a.args[2], int)):
            return ite(a.args[0], tofloat(a.args[1]), tofloat(a.args[2]))
        return a
    if a is UNDEF: return a
    raise Undecided('float from %r' % (a,))


def bnot(c):
    if isinstance(c, int): return 1 - c
    if c is UNDEF: return c
    if c.op == 'not': return c.args[0]
    return mk('not', c)


def band(a, b):
    if a is UNDEF or b is UNDEF:
        return 0 if a == 0 or b == 0 else UNDEF
    if isinstance(a, int): return b if a else 0
    if isinstance(b, int): return a if b else 0
    if a is b: return a
    if a is bnot(b): return 0
    if a.id > b.id: a, b = b, a
    return mk('and', a, b)


def bor(a, b): return bnot(band(bnot(a), bnot(b)))


def feq(a, b):
    if a is b: return 1
    if isfc(a) and isfc(b): return int(a.args[0] == b.args[0])
    if a.id > b.id: a, b = b, a
    return mk('feq', a, b)


def flt(a, b):
    if a is b: return 0
    if isfc(a) and isfc(b): return int(a.args[0] < b.args[0])
    if a.op == 'fc' and b.op == 'fc':
        m = {'inf': 1, '-inf': -1}
        x, y = m.get(a.args[0], 0), m.get(b.args[0], 0)
        if 'nan' in (a.args[0], b.args[0]): return 0
        return int(x < y)
    if ORACLE[0] is not None:
        r = ORACLE[0](a, b)
        if r is not None: return r
    return mk('flt', a, b)


ORACLE = [None]   # decides comparisons from the abstract state (an assumed order of quantities), or None


def isnan(a):
    if a.op == 'fc': return int(a.args[0] == 'nan')
    return mk('isnan', a)


def fcmp(pred, a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    a = tofloat(a); b = tofloat(b)
    if pred in ('true', 'false'): return int(pred == 'true')
    if pred == 'uno': return bor(isnan(a), isnan(b) if b is not a else 0)
    if pred == 'ord': return bnot(fcmp('uno', a, b))
    if a is FNAN or b is FNAN: return int(pred[0] == 'u')
    p = pred[1:]
    if a.op == 'ite' and isfc(a.args[1]) and isfc(a.args[2]) and isfc(b):
        return ite(a.args[0], fcmp(pred, a.args[1], b), fcmp(pred, a.args[2], b))
    if p == 'eq': return feq(a, b)
    if p == 'ne': return bnot(feq(a, b))
    if p == 'lt': return flt(a, b)
    if p == 'gt': return flt(b, a)
    if p == 'le': return bnot(flt(b, a))
    if p == 'ge': return bnot(flt(a, b))
    raise Undecided(pred)


def sgn(x, w):
    x &= (1 << w) - 1
    return x - (1 << w) if x >> (w - 1) else x


def iteint(t):
    return isinstance(t, T) and t.op == 'ite'


def ibin(op, w, a, b, depth=0):
    if a is UNDEF or b is UNDEF: return UNDEF
    M = (1 << w) - 1
    if op == 'and' and isinstance(a, Fn) and isinstance(b, int) and b == 1: return 0   # functions are aligned (member pointer calls test this bit)
    if w == 1:
        if op == 'and': return band(a, b)
        if op == 'or': return bor(a, b)
        if op == 'xor' or op == 'add' or op == 'sub':
            if isinstance(b, int): return bnot(a) if b else a
            if isinstance(a, int): return bnot(b) if a else b
            return ite(a, bnot(b), b)
    if isinstance(a, int) and isinstance(b, int):
        if op == 'add': return (a + b) & M
        if op == 'sub': return (a - b) & M
        if op == 'mul': return (a * b) & M
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return (a << b) & M if b < w else 0
        if op == 'lshr': return a >> b if b < w else 0
        if op == 'ashr': return (sgn(a, w) >> b) & M
        if op in ('udiv', 'urem'):
            if b == 0: raise Undecided('division by zero')
            return a // b if op == 'udiv' else a % b
        if op in ('sdiv', 'srem'):
            x, y = sgn(a, w), sgn(b, w)
            if y == 0: raise Undecided('division by zero')
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return (q if op == 'sdiv' else x - q * y) & M
    # pointers as integers
    if isinstance(a, (P,)) or isinstance(b, (P,)):
        if op == 'sub' and isinstance(a, P) and isinstance(b, P) and a.obj is b.obj:
            return ibin('sub', w, a.off, b.off)
        if op == 'add' and isinstance(a, P): return P(a.obj, ibin('add', w, a.off, b))
        if op == 'add' and isinstance(b, P): return P(b.obj, ibin('add', w, b.off, a))
        if op == 'sub' and isinstance(a, P) and not isinstance(b, P): return P(a.obj, ibin('sub', w, a.off, b))
        if op == 'and' and isinstance(a, P) and isinstance(b, int) and b < 64: return ibin('and', w, a.off, b)
        if op == 'sub' and isinstance(b, int) and b == 0: return a
        if not iteint(a) and not iteint(b): raise Undecided('pointer arithmetic %s' % op)
    if depth < 6:
        if iteint(a): return ite(a.args[0], ibin(op, w, a.args[1], b, depth + 1), ibin(op, w, a.args[2], b, depth + 1))
        if iteint(b): return ite(b.args[0], ibin(op, w, a, b.args[1], depth + 1), ibin(op, w, a, b.args[2], depth + 1))
    if isinstance(b, int):
        if b == 0:
            if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
            if op in ('mul', 'and'): return 0
        if b == 1 and op in ('mul', 'udiv', 'sdiv'): return a
        if op == 'sub': op = 'add'; b = (-b) & M
        if op == 'shl': op = 'mul'; b = (1 << b) & M
        if op == 'add' and isinstance(a, T) and a.op == 'iadd' and isinstance(a.args[2], int):
            return ibin('add', w, a.args[1], (a.args[2] + b) & M)
    elif isinstance(a, int) and op in ('add', 'mul', 'and', 'or', 'xor'):
        return ibin(op, w, b, a)
    if op == 'sub' and a is b: return 0
    if op in ('add', 'mul', 'and', 'or', 'xor') and isinstance(a, T) and isinstance(b, T) and a.id > b.id: a, b = b, a
    return mk('i' + op, w, a, b)


INEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt',
        'sgt': 'sle', 'sle': 'sgt'}


def icmp(pred, w, a, b, depth=0):
    if a is UNDEF or b is UNDEF: return UNDEF
    if isinstance(a, int) and isinstance(b, int):
        if pred[0] == 's': a = sgn(a, w); b = sgn(b, w)
        return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[
            pred if pred in ('eq', 'ne') else pred[1:]])
    if isinstance(a, (P, Fn)) or isinstance(b, (P, Fn)):
        if isinstance(a, P) and isinstance(b, P):
            if a.obj is b.obj: return icmp(pred, 64, a.off, b.off)
            if pred == 'eq': return 0
            if pred == 'ne': return 1
            return icmp(pred, 64, id_order(a.obj), id_order(b.obj))
        if isinstance(a, Fn) and isinstance(b, Fn): return int((a is b) == (pred == 'eq'))
        if isinstance(a, int) or isinstance(b, int):
            x = a if isinstance(a, int) else b
            if x == 0 or pred in ('eq', 'ne'):
                if pred == 'eq': return 0
                if pred == 'ne': return 1
                if pred in ('ugt', 'uge'): return int(not isinstance(a, int))
                if pred in ('ult', 'ule'): return int(isinstance(a, int))
        if not iteint(a) and not iteint(b): raise Undecided('pointer comparison')
    if depth < 8:
        if iteint(a) : return ite(a.args[0], icmp(pred, w, a.args[1], b, depth + 1), icmp(pred, w, a.args[2], b, depth + 1))
        if iteint(b): return ite(b.args[0], icmp(pred, w, a, b.args[1], depth + 1), icmp(pred, w, a, b.args[2], depth + 1))
    if w == 1:
        e = ite(a, b, bnot(b))
        if pred == 'eq': return e
        if pred == 'ne': return bnot(e)
    if a is b: return int(pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
    if isinstance(a, T) and a.op == 'zext' and isinstance(b, int) and isinstance(a.args[2], T):
        w0 = a.args[0]
        if pred in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge') and b < (1 << w0): return icmp(pred, w0, a.args[2], b)
    if pred == 'ne': return bnot(icmp('eq', w, a, b))
    if pred == 'eq':
        if isinstance(a, int) or (isinstance(b, T) and isinstance(a, T) and a.id > b.id): a, b = b, a
        return mk('ieq', w, a, b)
    if pred[1:] in ('gt', 'ge'): return icmp(pred[0] + {'gt': 'lt', 'ge': 'le'}[pred[1:]], w, b, a)
    if pred[1:] == 'le': return bnot(icmp(pred[0] + 'lt', w, b, a))
    if pred == 'ult' and b == 1: return icmp('eq', w, a, 0)
    if pred == 'ult' and b == 0: return 0
    return mk('i' + pred, w, a, b)


_ord = {}
def id_order(o): return _ord.setdefault(id(o), len(_ord) + 1)


def ite(c, a, b):
    if isinstance(c, int): return a if c else b
    if c is UNDEF: return a
    if a is b: return a
    if a is UNDEF: return b
    if b is UNDEF: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    if isinstance(a, tuple) and isinstance(b, tuple): return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, int) and isinstance(b, int):
        if a == b: return a
    if isinstance(a, P) and a == b: return a
    if isinstance(a, T) and a.op == 'ite':
        if a.args[0] is c: return ite(c, a.args[1], b)
    if isinstance(b, T) and b.op == 'ite':
        if b.args[0] is c: return ite(c, a, b.args[2])
    # booleans
    if (isinstance(a, int) and a in (0, 1) and isbool(b)) or (isinstance(b, int) and b in (0, 1) and isbool(a)):
        if isinstance(a, int): return bor(c, b) if a else band(bnot(c), b)
        return bor(bnot(c), a) if b else band(c, a)
    return mk('ite', c, a, b)


def bite(c, a, b):
    """ite on i1"""
    if isinstance(a, int) and isinstance(b, int):
        if a == b: return a
        return c if a else bnot(c)
    return ite(c, a, b)


BOOLOPS = {'not', 'and', 'feq', 'flt', 'isnan', 'ieq', 'iult', 'islt', 'bin'}


def isbool(t): return isinstance(t, T) and t.op in BOOLOPS


# ------------------------------------------------------------------ state
class State:
    __slots__ = ('mem', 'owned', 'ev', 'assume', 'aborts', 'pc')

    def __init__(s):
        s.mem = {}; s.owned = set(); s.ev = []; s.assume = {}; s.aborts = []; s.pc = ()

    def fork(s):
        n = State(); n.mem = dict(s.mem); n.owned = set(); s.owned = set()
        n.ev = list(s.ev); n.assume = dict(s.assume); n.aborts = s.aborts; n.pc = s.pc
        return n

    def cells(s, o):
        c = s.mem.get(o)
        if c is None: c = {}; s.mem[o] = c; s.owned.add(o)
        return c

    def wcells(s, o):
        c = s.mem.get(o)
        if c is None:
            c = {}; s.mem[o] = c; s.owned.add(o)
        elif o not in s.owned:
            c = dict(c); s.mem[o] = c; s.owned.add(o)
        return c


def bits_of(v, size):
    """concrete integer bits of a cell value or None"""
    if isinstance(v, int): return v
    if isfc(v) and size == 8:
        try: return struct.unpack('<Q', struct.pack('<d', float(v.args[0])))[0]
        except OverflowError: return None
    return None


class Frame:
    __slots__ = ('f', 'depth', 'counts')


DEAD = 'dead'
INDEXERS = re.compile(r'(llvm::SmallVectorTemplateCommon<|std::vector<(?!bool)).*::(operator\[\]\(unsigned long\)|back\(\)|front\(\))')

ARRAYS = re.compile(r'std::array<.*, (\d+)ul>::operator\[\]\(unsigned long\)')


class VG:
    def __init__(s, module, intercepts=None, opaque=None, max_sym_depth=48, max_steps=40_000_000):
        s.m = module
        s.dem = module.demangle()
        s.gobj = {}
        s.icache = {}
        s.intercepts = intercepts or []   # list of (regex on demangled name, handler)
        s.opaque = opaque                 # regex on demangled names recorded as events although they have a body
        s.max_sym = max_sym_depth
        s.nobj = 0
        s.unknown = {}
        s.tabs = []                       # (node, table, offset, location, path condition)
        s.oob = []                        # (file, line, object, offset)
        s.undef_reads = []
        s.steps = 0
        s.max_steps = max_steps
        s.nfuncs = set()
        s.nindex = 0
        s.callstack = []; s.dbgstack = []
        s.seq = 0

    # ---------------------------------------------------------------- objects
    def new_obj(s, name, size, kind, lazy=None):
        s.nobj += 1
        return Obj('%s.%d' % (name, s.nobj), size, kind, lazy)

    def input_obj(s, name, size=None, typ='f', lazy=None):
        o = Obj(name, size, 'input', None)
        if lazy is None:
            def lazy(off, sz, t, name=name, typ=typ):
                return mk('in', '%s[%s]' % (name, off // 8 if isinstance(off, int) and off % 8 == 0 else 'b%s' % off), typ if t is None else t)
        o.lazy = lazy
        return o

    def glob(s, n, st):
        if n in s.m.funcs: return Fn(n)
        o = s.gobj.get(n)
        if o is None:
            t, v, const, tl = s.m.global_init(n)
            o = Obj('@' + s.dem.get(n, n), ir.sizeof(t), 'global'); o.init = (t, v); s.gobj[n] = o
        if o not in st.mem:
            c = st.wcells(o)
            t, v = o.init
            if v is not None: s.init_cells(c, 0, t, v, st)
            else:
                nm = o.name
                o.lazy = lambda off, sz, ty, nm=nm: mk('in', '%s[b%s]' % (nm, off), 'f' if ty is None else ty)
        return P(o, 0)

    def init_cells(s, c, off, t, v, st):
        k = v[0]
        if k == 'zero' or (k == 'undef'):
            if k == 'zero': s.fill_zero(c, off, ir.sizeof(t))
            return
        if k == 'agg':
            ir.layout(t)
            for i, (et, ev) in enumerate(v[1]):
                eo = t._offs[i] if t.k == 'struct' else i * ir.sizeof(et)
                s.init_cells(c, off + eo, et, ev, st)
            return
        if k == 'bytes':
            for i, b in enumerate(v[1]): c[off + i] = (1, b)
            return
        c[off] = (ir.sizeof(t), s.const(t, v, st))

    def fill_zero(s, c, off, n):
        i = 0
        while i < n:
            a = off + i
            z = 8 if a % 8 == 0 and n - i >= 8 else 4 if a % 4 == 0 and n - i >= 4 else 1
            c[a] = (z, 0); i += z

    # ---------------------------------------------------------------- memory
    def check(s, st, p, size, what):
        o = p.obj
        if isinstance(p.off, int) and o.size is not None:
            off = sgn(p.off, 64)
            if off < 0 or off + size > o.size:
                s.oob.append((s.m.loc(CUR_DBG[0]), o.name, off, size, what, tuple(s.callstack[-3:]), st.pc))
                return False
        return True

    def load(s, st, p, t):
        if isinstance(p, T) and p.op == 'ite':
            return ite(p.args[0], s.load(st, p.args[1], t), s.load(st, p.args[2], t))
        if p is UNDEF: return UNDEF
        if not isinstance(p, P): raise Undecided('load through %s' % show(p))
        if t.k in ('arr', 'struct', 'vec'):
            ir.layout(t)
            if t.k == 'struct': return tuple(s.load(st, P(p.obj, p.off + o), e) for o, e in zip(t._offs, t.e))
            return tuple(s.load(st, P(p.obj, p.off + i * ir.sizeof(t.e)), t.e) for i in range(t.n))
        size = ir.sizeof(t)
        off = p.off
        if not isinstance(off, int):
            return s.load_symoff(st, p, t)
        off = sgn(off, 64)
        if not s.check(st, p, size, 'read'): return mk('oob', p.obj.name, off)
        v = s.load_cell(st, p.obj, off, size, t)
        if isfp(t):
            return tofloat(v)
        if t.k == 'int':
            if isinstance(v, T) and v.op == 'fc':
                b = bits_of(v, size)
                if b is not None: return b
            if isinstance(v, int): return v & ((1 << t.n) - 1)
        return v

    def load_symoff(s, st, p, t):
        off = p.off
        if isinstance(off, T) and off.op == 'ite':
            return ite(off.args[0], s.load(st, P(p.obj, off.args[1]), t), s.load(st, P(p.obj, off.args[2]), t))
        r = s.load_table(st, p, t)
        if r is not None: return r
        raise Undecided('symbolic index into %s: %s' % (p.obj.name, show(off)))

    def load_table(s, st, p, t):
        """an element, selected by a computed index, of an array that holds nothing but constants"""
        o = p.obj; z = ir.sizeof(t)
        if not isfp(t) or o.size is None or o.lazy is not None or o.size % z or o.size // z > 4096: return None
        c = st.cells(o); v = []
        for k in range(0, o.size, z):
            e = c.get(k)
            x = None if e is None or e[0] != z else tofloat(e[1])
            if x is None or not isfc(x): return None
            v.append(x)
        tab = (tuple(v), z)
        i = TABID.get(tab)
        if i is None: i = TABID[tab] = len(TABLES); TABLES.append(tab)
        r = mk('tab', i, p.off)
        s.tabs.append((r, i, p.off, s.m.loc(CUR_DBG[0]), st.pc))
        return r

    def load_cell(s, st, o, off, size, t=None):
        c = st.cells(o)
        e = c.get(off)
        if e is not None and e[0] == size: return e[1]
        if e is None and o.lazy is not None:
            # lazily created input symbol, unless inside another cell
            inside = any((off - d) in c and c[off - d][0] > d for d in range(1, 16))
            if not inside and not any((off + d) in c for d in range(1, size)):
                v = o.lazy(off, size, None if t is None else ('f' if isfp(t) else 'p' if t.k == 'ptr' else 'i%d' % t.n if t.k == 'int' else None))
                st.wcells(o)[off] = (size, v)
                return v
        # compose from concrete bytes
        out = 0; ok = True; a = off
        while a < off + size:
            found = None
            for d in range(0, 16):
                b = c.get(a - d)
                if b is not None and b[0] > d: found = (a - d, b, d); break
            if found is None: ok = False; break
            st0, (sz, v), d = found
            bv = bits_of(v, sz)
            if bv is None: ok = False; break
            out |= ((bv >> (8 * d)) & 255) << (8 * (a - off)); a += 1
        if ok: return out
        if e is not None and e[0] > size and isinstance(e[1], T):
            # low part of a symbolic integer
            return mk('trunc', size * 8, e[1]) if e[1].op != 'zext' else e[1]
        if e is None and not any((off + d) in c for d in range(-15, size) if (off + d) in c and c[off + d][0] > -d):
            s.undef_reads.append((s.m.loc(CUR_DBG[0]), o.name, off, tuple(s.callstack[-3:])))
            return UNDEF
        if e is not None and e[0] < size and all((off + k) not in c for k in range(e[0], size)):
            return e[1]
        # wider read over parts that are undefined in places (padding): keep what is known as opaque
        parts = tuple(v for k in range(0, size) for v in ([c[off + k][1]] if (off + k) in c else []))
        if any(isinstance(x, (P, Fn)) for x in parts): raise Undecided('mixed-size read of %s+%d' % (o.name, off))
        return mk('cat', *[x if not isinstance(x, Undef) else 0 for x in parts])

    def store(s, st, p, v, size):
        if isinstance(p, T) and p.op == 'ite':
            c = p.args[0]
            for br, q in ((c, p.args[1]), (bnot(c), p.args[2])):
                if isinstance(q, int): continue
                s.cond_store(st, br, q, v, size)
            return
        if p is UNDEF: return
        if not isinstance(p, P): raise Undecided('store through %s' % show(p))
        off = p.off
        if isinstance(off, T) and off.op == 'ite':
            c = off.args[0]
            s.cond_store(st, c, P(p.obj, off.args[1]), v, size)
            s.cond_store(st, bnot(c), P(p.obj, off.args[2]), v, size)
            return
        if not isinstance(off, int): raise Undecided('symbolic store index into %s' % p.obj.name)
        off = sgn(off, 64)
        if not s.check(st, p, size, 'write'): return
        c = st.wcells(p.obj)
        e = c.get(off)
        if e is None or e[0] != size:
            s.kill(c, off, size, p.obj)
        c[off] = (size, v)

    def cond_store(s, st, c, p, v, size):
        if isinstance(p, T):
            raise Undecided('nested conditional store')
        old = s.load_cell(st, p.obj, sgn(p.off, 64), size) if isinstance(p.off, int) else None
        if old is None:
            raise Undecided('symbolic conditional store')
        s.store(st, p, ite(c, v, old), size)

    def kill(s, c, off, size, o):
        for a in range(off - 15, off + size):
            e = c.get(a)
            if e is None or a + e[0] <= off: continue
            del c[a]
            b = bits_of(e[1], e[0])
            if b is not None:
                # keep the bytes outside the overwritten range
                for k in range(e[0]):
                    if a + k < off or a + k >= off + size: c[a + k] = (1, (b >> (8 * k)) & 255)
            elif a < off or a + e[0] > off + size:
                for k in range(e[0]):
                    if a + k < off or a + k >= off + size: c[a + k] = (1, UNDEF)

    def memcpy(s, st, d, sp, n, move=False):
        if isinstance(n, T) and n.op == 'ite':
            # join of two copies
            c = n.args[0]
            a = st.fork(); b = st.fork()
            s.memcpy(a, d, sp, n.args[1]); s.memcpy(b, d, sp, n.args[2])
            m = s.merge_state(c, a, b, st); st.mem = m.mem; st.owned = set()
            return
        if not isinstance(n, int): raise Undecided('memcpy of symbolic length')
        if n == 0: return
        if isinstance(sp, T) and sp.op == 'ite' or isinstance(d, T) and d.op == 'ite':
            q = sp if isinstance(sp, T) else d
            c = q.args[0]
            a = st.fork(); b = st.fork()
            s.memcpy(a, d.args[1] if d is q else d, sp.args[1] if sp is q else sp, n)
            s.memcpy(b, d.args[2] if d is q else d, sp.args[2] if sp is q else sp, n)
            m = s.merge_state(c, a, b, st); st.mem = m.mem; st.owned = set()
            return
        if not isinstance(sp, P) or not isinstance(d, P): raise Undecided('memcpy %s <- %s' % (show(d), show(sp)))
        if not isinstance(sp.off, int) or not isinstance(d.off, int): raise Undecided('memcpy at symbolic offset')
        if not s.check(st, P(sp.obj, sp.off), n, 'copy from') or not s.check(st, P(d.obj, d.off), n, 'copy to'): return
        so = sgn(sp.off, 64); do = sgn(d.off, 64)
        if sp.obj.lazy is not None and n % 8 == 0:
            for k in range(0, n, 8): s.load_cell(st, sp.obj, so + k, 8, ir.DBL)
        src = st.cells(sp.obj)
        if n <= 4096 or n <= 4 * len(src):
            items = [(a, src[a]) for a in range(so - 15, so + n) if a in src and a + src[a][0] > so]
        else:
            items = sorted((a, e) for a, e in src.items() if a < so + n and a + e[0] > so)
        dst = st.wcells(d.obj)
        # clear the destination
        if n <= 4096:
            s.kill(dst, do, n, d.obj)
        else:
            for a in [a for a, e in dst.items() if a < do + n and a + e[0] > do]: del dst[a]
        for a, (sz, v) in items:
            if a >= so and a + sz <= so + n: dst[a - so + do] = (sz, v)
            else:
                b = bits_of(v, sz)
                for k in range(sz):
                    if so <= a + k < so + n:
                        dst[a + k - so + do] = (1, UNDEF if b is None else (b >> (8 * k)) & 255)

    # ---------------------------------------------------------------- values
    def const(s, t, v, st):
        k = v[0]
        if k == 'int': return v[1]
        if k == 'fp': return mk('fc', v[1])
        if k == 'glob': return s.glob(v[1], st)
        if k == 'undef': return s.undef_of(t)
        if k == 'zero': return s.zero_of(t)
        if k == 'agg': return tuple(s.const(et, ev, st) for et, ev in v[1])
        if k == 'bytes': return tuple(v[1])
        if k == 'cgep': return s.gep(st, v[1], [(ot, s.const(ot, o, st)) for ot, o in v[2]])
        if k == 'ccast':
            x = s.const(v[2], v[3], st)
            if v[1] in ('ptrtoint', 'inttoptr', 'bitcast'): return x
            return s.cast(v[1], v[2], x, v[4])
        if k == 'cbin':
            x = s.const(v[2], v[3], st); y = s.const(v[2], v[4], st)
            if v[1] == 'icmp': return icmp(v[5], v[2].n or 64, x, y)
            return ibin(v[1], v[2].n or 64, x, y)
        raise Undecided('constant %s' % k)

    def undef_of(s, t):
        if t.k == 'struct': return tuple(s.undef_of(e) for e in t.e)
        if t.k in ('arr', 'vec'): return tuple(s.undef_of(t.e) for _ in range(t.n))
        return UNDEF

    def zero_of(s, t):
        if t.k == 'struct': return tuple(s.zero_of(e) for e in t.e)
        if t.k in ('arr', 'vec'): return tuple(s.zero_of(t.e) for _ in range(t.n))
        if isfp(t): return F0
        return 0

    def val(s, env, st, t, v):
        if v[0] == 'reg':
            return env[v[1]]
        return s.const(t, v, st)

    def gep(s, st, bt, ops):
        base = ops[0][1]
        if base is UNDEF: return UNDEF
        off = 0
        t = bt
        for i, (ot, x) in enumerate(ops[1:]):
            if i == 0: sz = ir.sizeof(bt)
            elif t.k == 'struct':
                ir.layout(t); off = ibin('add', 64, off, t._offs[x]); t = t.e[x]; continue
            else:
                t = t.e; sz = ir.sizeof(t)
            if ot.k == 'int' and ot.n < 64 and isinstance(x, int): x = sgn(x, ot.n) & (2**64 - 1)
            elif ot.k == 'int' and ot.n < 64: x = s.cast('sext', ot, x, ir.int_t(64))
            if x is UNDEF: return UNDEF
            off = ibin('add', 64, off, ibin('mul', 64, x, sz))
        return s.padd(base, off)

    def padd(s, base, off):
        if isinstance(base, P): return P(base.obj, ibin('add', 64, base.off, off))
        if isinstance(base, T) and base.op == 'ite':
            return ite(base.args[0], s.padd(base.args[1], off), s.padd(base.args[2], off))
        if isinstance(base, int): return ibin('add', 64, base, off)
        if isinstance(base, Fn): return base
        raise Undecided('gep on %s' % show(base))

    def cast(s, op, t, v, nt):
        if v is UNDEF: return UNDEF
        if isinstance(v, tuple): 
            if op == 'bitcast': return v
            return tuple(s.cast(op, t.e, x, nt.e) for x in v)
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'fpext', 'fptrunc'):
            if op == 'bitcast' and isfp(nt): return tofloat(v)
            if op in ('fptrunc', 'fpext') and STRICT[0]: return mk('fpcast', nt.k, v)
            return v
        if isinstance(v, T) and v.op == 'ite' and op in ('zext', 'sext', 'trunc') and (isinstance(v.args[1], int) or isinstance(v.args[2], int)):
            return ite(v.args[0], s.cast(op, t, v.args[1], nt), s.cast(op, t, v.args[2], nt))
        if op == 'zext':
            if isinstance(v, int): return v
            if t.n == 1: return mk('ite', v, 1, 0) if v.op != 'not' else mk('ite', v.args[0], 0, 1)
            return mk('zext', t.n, nt.n, v)
        if op == 'sext':
            if isinstance(v, int): return sgn(v, t.n) & ((1 << nt.n) - 1)
            if t.n == 1: return ite(v, (1 << nt.n) - 1, 0)
            return mk('sext', t.n, nt.n, v)
        if op == 'trunc':
            if isinstance(v, int): return v & ((1 << nt.n) - 1)
            if isinstance(v, P): return v
            if v.op in ('zext', 'sext') and v.args[0] == nt.n: return v.args[2]
            if v.op in BOOLOPS: return v
            if nt.n == 1 and v.op == 'ite' and v.args[1] in (0, 1) and v.args[2] in (0, 1):
                return v.args[0] if v.args[1] else bnot(v.args[0])
            if nt.n == 1: return mk('bin', mk('trunc', 1, v))
            return mk('trunc', nt.n, v)
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, int): return fc(sgn(v, t.n) if op == 'sitofp' else v)
            if isinstance(v, T) and v.op == 'ite': return ite(v.args[0], s.cast(op, t, v.args[1], nt), s.cast(op, t, v.args[2], nt))
            return mk('i2f', op[0], t.n, v)
        if op in ('fptosi', 'fptoui'):
            v = tofloat(v)
            if isfc(v):
                x = v.args[0]; n = int(x)  # toward zero
                return n & ((1 << nt.n) - 1)
            if isinstance(v, T) and v.op == 'ite' and (isfc(v.args[1]) or isfc(v.args[2])):
                return ite(v.args[0], s.cast(op, t, v.args[1], nt), s.cast(op, t, v.args[2], nt))
            if v.op == 'i2f' and v.args[1] == nt.n: return v.args[2]
            return mk('f2i', nt.n, v)
        raise Undecided('cast %s' % op)

    # ---------------------------------------------------------------- control flow
    def ipdom(s, f):
        if f._ipdom is not None: return f._ipdom
        succ = {}
        for b, ins in f.blocks.items():
            t = ins[-1]
            if t[0] == 'br': succ[b] = [t[3]]
            elif t[0] == 'condbr': succ[b] = [t[4], t[5]]
            elif t[0] == 'switch': succ[b] = [t[5]] + [x[1] for x in t[6]]
            elif t[0] == 'invoke': succ[b] = [t[6]]
            elif t[0] == 'ret': succ[b] = ['$exit']
            else: succ[b] = []
        pred = {}
        for b, ss in succ.items():
            for x in ss: pred.setdefault(x, []).append(b)
        # blocks that can reach the exit
        live = set(); w = ['$exit']
        while w:
            x = w.pop()
            for p in pred.get(x, []):
                if p not in live: live.add(p); w.append(p)
        nodes = [b for b in f.blocks if b in live]
        # iterative post-dominator sets via order numbers (small functions)
        order = []; seen = set()
        def dfs(x):
            stack = [(x, iter(pred.get(x, [])))]
            seen.add(x)
            while stack:
                n, it = stack[-1]
                for p in it:
                    if p in live and p not in seen:
                        seen.add(p); stack.append((p, iter(pred.get(p, [])))); break
                else:
                    order.append(n); stack.pop()
        dfs('$exit')
        rpo = list(reversed(order)); num = {b: i for i, b in enumerate(rpo)}
        idom = {'$exit': '$exit'}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == '$exit': continue
                new = None
                for x in succ[b]:
                    if x in idom:
                        if new is None: new = x
                        else:
                            a, c = new, x
                            while a != c:
                                while num[a] > num[c]: a = idom[a]
                                while num[c] > num[a]: c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new: idom[b] = new; ch = True
        f._ipdom = (idom, live)
        return f._ipdom

    def rloc(s):
        """source position of the innermost active call that lies in the code under analysis"""
        l0 = s.m.loc(CUR_DBG[0])
        for d in [CUR_DBG[0]] + s.dbgstack[::-1]:
            l = s.m.loc(d) if d is not None else None
            if l and '/src/' in str(l[0] if isinstance(l, tuple) else l) and '/drivers/' not in str(l): return l
        return l0

    def call_fn(s, name, args, st, depth=0):
        f = s.m.funcs[name]
        f.parse(); CUR_MOD[0] = s.m
        if depth > 400: raise Undecided('call depth')
        s.nfuncs.add(name)
        fr = Frame(); fr.f = f; fr.depth = depth; fr.counts = {}
        env = {n: a for (t, n), a in zip(f.params, args)}
        s.callstack.append(name)
        dbg0 = CUR_DBG[0]; s.dbgstack.append(dbg0)
        try:
            r = s.region(fr, f.entry, None, env, st, None)
        except Undecided as e:
            if not hasattr(e, 'stack'): e.stack = list(s.callstack)
            raise
        finally:
            s.callstack.pop(); s.dbgstack.pop(); CUR_DBG[0] = dbg0
        if r[0] == DEAD: return DEAD, None
        return r[1], r[2]   # value, state

    def region(s, fr, blk, prev, env, st, stop):
        """run from blk until control reaches block `stop` (or the function returns).
        -> ('dead',) | ('ret', value, st) | ('at', prev, env, st)"""
        f = fr.f
        blocks = f.blocks
        while True:
            if blk == stop: return ('at', prev, env, st)
            ins = blocks[blk]
            i = 0; n = len(ins)
            # phis, evaluated together
            if prev == '$join':   # the phis were evaluated on the incoming sides
                while i < n and ins[i][0] == 'phi': i += 1
            elif ins and ins[0][0] == 'phi':
                new = []
                while i < n and ins[i][0] == 'phi':
                    it = ins[i]
                    for v, b in it[4]:
                        if b == prev:
                            new.append((it[1], s.val(env, st, it[3], v))); break
                    else: raise Undecided('phi without edge')
                    i += 1
                for d, v in new: env[d] = v
            nxt = None
            while i < n:
                it = ins[i]; i += 1
                op = it[0]
                s.steps += 1
                if it[2] is not None: CUR_DBG[0] = it[2]
                if op == 'load':
                    env[it[1]] = s.load(st, s.val(env, st, ir.PTR, it[4]), it[3])
                elif op == 'store':
                    v = s.val(env, st, it[3], it[4]); p = s.val(env, st, ir.PTR, it[5])
                    s.store_typed(st, p, v, it[3])
                elif op == 'gep':
                    env[it[1]] = s.gep(st, it[3], [(t, s.val(env, st, t, v)) for t, v in it[4]])
                elif op == 'call' or op == 'invoke':
                    r = s.do_call(fr, it, env, st)
                    if r is DEAD: return (DEAD,)
                    v, st = r
                    if it[1] is not None: env[it[1]] = v
                    if op == 'invoke': nxt = it[6]
                elif op == 'br': nxt = it[3]
                elif op == 'condbr':
                    c = s.val(env, st, ir.int_t(1), it[3])
                    c = s.decide(st, c)
                    if isinstance(c, int): nxt = it[4] if c else it[5]
                    else:
                        return_ = s.branch(fr, blk, c, it[4], it[5], env, st, stop)
                        if return_[0] != 'cont': return return_
                        _, nxt, prev, env, st = return_
                        blk = prev  # so that prev is set below
                elif op == 'alloca':
                    cnt = s.val(env, st, ir.int_t(64), it[4])
                    if not isinstance(cnt, int): raise Undecided('alloca of symbolic size')
                    env[it[1]] = P(s.new_obj('%s' % it[1], ir.sizeof(it[3]) * cnt, 'stack'), 0)
                elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
                    a = s.val(env, st, it[3], it[4]); b = s.val(env, st, it[3], it[5])
                    env[it[1]] = tuple(fbin(op, x, y) for x, y in zip(a, b)) if isinstance(a, tuple) else fbin(op, a, b)
                elif op == 'fneg':
                    a = s.val(env, st, it[3], it[4])
                    env[it[1]] = tuple(map(fneg, a)) if isinstance(a, tuple) else fneg(a)
                elif op == 'frem':
                    env[it[1]] = s.pure('fmod', [s.val(env, st, it[3], it[4]), s.val(env, st, it[3], it[5])])
                elif op in ir.BIN:
                    a = s.val(env, st, it[3], it[4]); b = s.val(env, st, it[3], it[5])
                    if isinstance(a, tuple): env[it[1]] = tuple(ibin(op, it[3].e.n, x, y) for x, y in zip(a, b))
                    else: env[it[1]] = ibin(op, it[3].n, a, b)
                elif op == 'icmp':
                    t = it[4]
                    env[it[1]] = icmp(it[3], t.n if t.k == 'int' else 64, s.val(env, st, t, it[5]), s.val(env, st, t, it[6]))
                elif op == 'fcmp':
                    env[it[1]] = fcmp(it[3], s.val(env, st, it[4], it[5]), s.val(env, st, it[4], it[6]))
                elif op == 'cast':
                    env[it[1]] = s.cast(it[3], it[4], s.val(env, st, it[4], it[5]), it[6])
                elif op == 'select':
                    c = s.decide(st, s.val(env, st, ir.int_t(1), it[3]))
                    a = s.val(env, st, it[4], it[5]); b = s.val(env, st, it[4], it[6])
                    env[it[1]] = bite(c, a, b) if it[4].k == 'int' and it[4].n == 1 else ite(c, a, b)
                elif op == 'ret':
                    v = None if it[3] is None else s.val(env, st, it[3], it[4])
                    return ('ret', v, st)
                elif op == 'unreachable': return (DEAD,)
                elif op == 'switch':
                    v = s.val(env, st, it[3], it[4])
                    w = it[3].n
                    nxt = None
                    if isinstance(v, int):
                        nxt = it[5]
                        for cv, lb in it[6]:
                            if cv == v: nxt = lb
                    else:
                        r = s.switch(fr, blk, v, w, it[5], it[6], env, st, stop)
                        if r[0] != 'cont': return r
                        _, nxt, prev, env, st = r
                        blk = prev
                elif op == 'extractvalue':
                    v = s.val(env, st, it[3], it[4])
                    for k in it[5]:
                        if v is UNDEF: break
                        if isinstance(v, T) and v.op == 'ite': v = ite(v.args[0], v.args[1][k], v.args[2][k])
                        else: v = v[k]
                    env[it[1]] = v
                elif op == 'insertvalue':
                    v = s.val(env, st, it[3], it[4]); x = s.val(env, st, it[7], it[5])
                    env[it[1]] = ins_at(v, it[6], x)
                elif op == 'extractelement':
                    v = s.val(env, st, it[3], it[4]); k = s.val(env, st, ir.int_t(64), it[5]); env[it[1]] = v[k]
                elif op == 'insertelement':
                    v = s.val(env, st, it[3], it[4]); x = s.val(env, st, it[3].e, it[5]); k = s.val(env, st, ir.int_t(64), it[6])
                    env[it[1]] = ins_at(v, [k], x)
                elif op == 'shufflevector':
                    v = s.val(env, st, it[3], it[4]) + s.val(env, st, it[3], it[5]); m = s.val(env, st, it[6], it[7])
                    env[it[1]] = tuple(UNDEF if k is UNDEF else v[k] for k in m)
                elif op == 'freeze': env[it[1]] = s.val(env, st, it[3], it[4])
                elif op == 'landingpad': return (DEAD,)
                elif op == 'atomicrmw':
                    p = s.val(env, st, ir.PTR, it[4]); t = it[5]; v = s.val(env, st, t, it[6])
                    old = s.load(st, p, t); env[it[1]] = old
                    s.store_typed(st, p, v if it[3] == 'xchg' else ibin(it[3], t.n, old, v), t)
                else:
                    raise Undecided('instruction %s' % op)
            if s.steps > s.max_steps: raise Undecided('budget')
            prev = blk; blk = nxt

    def store_typed(s, st, p, v, t):
        if t.k in ('arr', 'struct', 'vec'):
            ir.layout(t)
            es = t.e if t.k == 'struct' else [t.e] * t.n
            offs = t._offs if t.k == 'struct' else [i * ir.sizeof(t.e) for i in range(t.n)]
            for o, e, x in zip(offs, es, v if isinstance(v, tuple) else [UNDEF] * len(es)):
                s.store_typed(st, s.padd(p, o), x, e)
            return
        s.store(st, p, v, ir.sizeof(t))

    def decide(s, st, c):
        if isinstance(c, int): return c
        if c is UNDEF: raise Undecided('branch on undefined value')
        v = st.assume.get(c)
        if v is not None: return int(v)
        if c.op == 'not':
            r = s.decide(st, c.args[0])
            return 1 - r if isinstance(r, int) else c
        if c.op == 'and':
            a = s.decide(st, c.args[0]); b = s.decide(st, c.args[1])
            if a == 0 or b == 0: return 0
            if isinstance(a, int) and isinstance(b, int): return 1
            if isinstance(a, int): return b
            if isinstance(b, int): return a
        if c.op == 'flt':  # a<b known from b<a
            r = st.assume.get(_tab.get(('flt', c.args[1], c.args[0])))
            if r: return 0
            if st.assume.get(_tab.get(('feq',) + tuple(sorted(c.args, key=lambda t: t.id)))): return 0
        if c.op == 'feq':
            a, b = c.args
            if st.assume.get(_tab.get(('flt', a, b))) or st.assume.get(_tab.get(('flt', b, a))): return 0
        return c

    def learn(s, st, c, v):
        if isinstance(c, int): return
        if c.op == 'not': return s.learn(st, c.args[0], not v)
        st.assume[c] = v
        if c.op == 'and' and v: s.learn(st, c.args[0], True); s.learn(st, c.args[1], True)

    def branch(s, fr, blk, c, tb, fb, env, st, stop):
        idom, live = s.ipdom(fr.f)
        if tb == fb: return ('cont', tb, blk, env, st)
        if tb not in live and fb not in live: return (DEAD,)
        if tb not in live or fb not in live:
            # the other edge only leads to a failure exit
            ok = tb in live
            dead = st.fork(); s.learn(dead, c, not ok); dead.pc = st.pc + ((c, not ok),)
            self_abort = s.follow_dead(fr, blk, fb if ok else tb, env, dead)
            st.aborts.append((dead.pc, self_abort))
            s.learn(st, c, ok); st.pc = st.pc + ((c, ok),)
            return ('cont', tb if ok else fb, blk, env, st)
        j = idom[blk]
        jj = None if j == '$exit' else j
        k = fr.counts.get(blk, 0) + 1
        fr.counts[blk] = k
        if k > s.max_sym:
            raise Undecided('loop with a data-dependent trip count in %s' % s.dem.get(fr.f.name, fr.f.name)[:120])
        s1 = st.fork(); s2 = st.fork()
        s.learn(s1, c, True); s.learn(s2, c, False)
        s1.pc = st.pc + ((c, True),); s2.pc = st.pc + ((c, False),)
        r1 = s.region(fr, tb, blk, dict(env), s1, jj)
        r2 = s.region(fr, fb, blk, dict(env), s2, jj)
        fr.counts[blk] = k - 1
        return s.join(fr, c, r1, r2, jj, env, st)

    def switch(s, fr, blk, v, w, default, cases, env, st, stop):
        idom, live = s.ipdom(fr.f)
        j = idom[blk]; jj = None if j == '$exit' else j
        def rec(i, st):
            if i == len(cases):
                if default not in live: return (DEAD,)
                return s.region(fr, default, blk, dict(env), st, jj)
            c = s.decide(st, icmp('eq', w, v, cases[i][0]))
            if isinstance(c, int):
                if c: return s.region(fr, cases[i][1], blk, dict(env), st, jj)
                return rec(i + 1, st)
            s1 = st.fork(); s2 = st.fork(); s.learn(s1, c, True); s.learn(s2, c, False)
            s1.pc = st.pc + ((c, True),); s2.pc = st.pc + ((c, False),)
            r1 = s.region(fr, cases[i][1], blk, dict(env), s1, jj)
            r2 = rec(i + 1, s2)
            r = s.join(fr, c, r1, r2, jj, env, st)
            if r[0] == 'cont': return ('at', r[2], r[3], r[4], r[1])
            return r
        r = rec(0, st)
        if r[0] == 'at': return ('cont', jj, r[1], r[2], r[3])
        return r

    def join(s, fr, c, r1, r2, jj, env, st):
        if r1[0] == DEAD and r2[0] == DEAD: return (DEAD,)
        if r1[0] == DEAD or r2[0] == DEAD:
            r = r2 if r1[0] == DEAD else r1
            if r[0] == 'ret': return r
            return ('cont', jj, r[1], r[2], r[3])
        if r1[0] == 'ret':   # both return
            v = merge_val(c, r1[1], r2[1], fr.f.rett)
            return ('ret', v, s.merge_state(c, r1[2], r2[2], st))
        # both at the join block: evaluate its phis on each side, then merge
        p1, e1, s1 = r1[1:4]; p2, e2, s2 = r2[1:4]
        s.join_phis(fr, jj, p1, e1, s1); s.join_phis(fr, jj, p2, e2, s2)
        ns = s.merge_state(c, s1, s2, st)
        ne = e1
        for k, v2 in e2.items():
            v1 = e1.get(k)
            if k not in e1: ne[k] = v2
            elif v1 is not v2:
                try: ne[k] = merge_val(c, v1, v2, None)
                except Undecided: ne[k] = UNDEF
        return ('cont', jj, '$join', ne, ns)

    def join_phis(s, fr, jj, prev, env, st):
        if prev == '$join': return
        ins = fr.f.blocks[jj]
        new = []
        for it in ins:
            if it[0] != 'phi': break
            for v, b in it[4]:
                if b == prev: new.append((it[1], s.val(env, st, it[3], v))); break
            else: raise Undecided('phi without edge')
        for d, v in new: env[d] = v

    def merge_state(s, c, a, b, base):
        n = State()
        n.aborts = base.aborts; n.assume = dict(base.assume); n.pc = base.pc
        L = len(base.ev)
        ea, eb = a.ev[L:], b.ev[L:]
        n.ev = list(base.ev)
        if ea or eb:
            k = 0
            while k < len(ea) and k < len(eb) and ea[k] == eb[k]: k += 1
            n.ev += ea[:k]
            if ea[k:] or eb[k:]: n.ev.append(('if', c, tuple(ea[k:]), tuple(eb[k:])))
        mem = n.mem
        for o, ca in a.mem.items():
            cb = b.mem.get(o)
            if cb is None or ca is cb: mem[o] = ca; continue
            out = {}
            for off, (sz, v) in ca.items():
                e = cb.get(off)
                if e is None:
                    if o.lazy is not None and sz == 8: 
                        v2 = s.load_cell(b, o, off, sz, ir.DBL)
                        out[off] = (sz, merge_val(c, v, v2, None))
                    else: out[off] = (sz, v)
                elif e[1] is v: out[off] = e
                elif e[0] != sz:
                    x = bits_of(v, sz); y = bits_of(e[1], e[0])
                    out[off] = (sz, v) if isinstance(v, Undef) is False and e[0] < sz else e
                    out[off] = (max(sz, e[0]), UNDEF)
                else: out[off] = (sz, merge_val(c, v, e[1], None))
            for off, (sz, v) in cb.items():
                if off not in ca:
                    if o.lazy is not None and sz == 8:
                        v1 = s.load_cell(a, o, off, sz, ir.DBL)
                        out[off] = (sz, merge_val(c, v1, v, None))
                    else: out[off] = (sz, v)
            mem[o] = out
        for o, cb in b.mem.items():
            if o not in a.mem: mem[o] = cb
        return n

    def follow_dead(s, fr, prev, blk, env, st):
        """name the failure exit an edge leads to"""
        seen = set()
        f = fr.f
        while blk not in seen:
            seen.add(blk)
            for it in f.blocks[blk]:
                if it[0] in ('call', 'invoke') and it[4][0] == 'glob':
                    nm = s.dem.get(it[4][1], it[4][1])
                    if not nm.startswith('llvm.'): return nm[:80]
            t = f.blocks[blk][-1]
            if t[0] == 'br': blk = t[3]
            elif t[0] == 'invoke': blk = t[6]
            else: break
        return 'unreachable'

    # ---------------------------------------------------------------- calls
    def do_call(s, fr, it, env, st):
        rt = it[3]; callee = it[4]
        fn = s.val(env, st, ir.PTR, callee)
        if isinstance(fn, T) and fn.op == 'ite': raise Undecided('call through a joined function pointer')
        if not isinstance(fn, Fn): raise Undecided('indirect call')
        name = fn.name
        if name.startswith('llvm.'):
            if name not in s.icache: s.icache[name] = next((hd for rx, hd in s.intercepts if rx.startswith('^llvm') and re.search(rx, name)), False)
            if s.icache[name]: return s.icache[name](s, st, [s.val(env, st, a[0], a[1]) for a in it[5]], rt, name), st
            r = s.intrinsic(name, [None if a[0] is ir.META else s.val(env, st, a[0], a[1]) for a in it[5]], st, rt)
            return r, st
        args = []
        for a in it[5]:
            v = s.val(env, st, a[0], a[1])
            if len(a) > 2:  # byval
                bt = [x for x in a[2] if x[0] == 'byval']
                p = ir.P(' '.join(bt[0][1][1:-1]), s.m)
                t = p.type(); o = s.new_obj('byval', ir.sizeof(t), 'stack')
                s.memcpy(st, P(o, 0), v, ir.sizeof(t)); v = P(o, 0)
            args.append(v)
        h = s.icache.get(name)
        if h is None:
            h = False; d = s.dem.get(name, name)
            for rx, hd in s.intercepts:
                if re.search(rx, d): h = hd; break
            if not h and INDEXERS.match(d): h = 'index'
            if not h:
                mm = ARRAYS.match(d)
                if mm: h = ('array', int(mm.group(1)))
            if not h and s.opaque and re.search(s.opaque, d): h = 'opaque'
            s.icache[name] = h
        if h == 'opaque': return s.event(name, args, st, rt), st
        if isinstance(h, tuple):
            s.nindex += 1
            if isinstance(args[1], int) and args[1] >= h[1]:
                s.oob.append((s.rloc() or s.m.loc(CUR_DBG[0]), 'an array of %d' % h[1], 'element %d' % sgn(args[1], 64), 0, 'element access', tuple(s.callstack[-3:]), st.pc))
            h = False
        idx = h == 'index'
        if idx: h = False
        if h:
            r = h(s, st, args, rt, name)
            if r is DEAD: return DEAD
            if isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], State): return r
            return r, st
        f = s.m.funcs.get(name)
        if f is None or f.declared_only:
            r = s.extern(name, args, st, rt)
            if r is DEAD:
                st.aborts.append((st.pc, s.dem.get(name, name)[:80])); return DEAD
            return r, st
        v, ns = s.call_fn(name, args, st, fr.depth + 1)
        if v is DEAD: return DEAD
        if idx: s.check_index(ns, args, v)
        return v, ns

    def check_index(s, st, args, r):
        """bounds rule: an element access of a vector (begin, end, capacity pointers) yields an element before its end"""
        try: end = s.load(st, P(args[0].obj, ibin('add', 64, args[0].off, 8)), ir.PTR)
        except (Undecided, AttributeError, TypeError): return
        if isinstance(end, P) and isinstance(r, P) and end.obj is r.obj and isinstance(end.off, int) and isinstance(r.off, int):
            s.nindex += 1
            if not sgn(r.off, 64) < sgn(end.off, 64):
                s.oob.append((s.m.loc(CUR_DBG[0]), 'a vector', 'element %s, %d bytes past its last element' % (args[1] if len(args) > 1 else '', sgn(r.off, 64) - sgn(end.off, 64)), 0, 'element access', tuple(s.callstack[-3:]), st.pc))

    def event(s, name, args, st, rt):
        s.seq += 1
        d = s.dem.get(name, name)
        st.ev.append((d, tuple(a if not isinstance(a, Undef) else 0 for a in args), s.rloc()))
        if rt.k == 'void': return None
        k = sum(1 for e in st.ev if e[0] == d)
        return s.fresh('%s#%d' % (d.split('(')[0], k), rt)

    def fresh(s, name, rt):
        if rt.k in ('double', 'float', 'fp80'): return mk('in', name, 'f')
        if rt.k == 'int':
            return mk('bin', mk('in', name, 'i1')) if rt.n == 1 else mk('in', name, 'i%d' % rt.n)
        if rt.k == 'ptr': return P(s.new_obj('ext:' + name, None, 'input', lambda off, sz, t: mk('in', '%s[b%s]' % (name, off), 'f' if t is None else t)), 0)
        if rt.k == 'struct': return tuple(s.fresh('%s.%d' % (name, i), e) for i, e in enumerate(rt.e))
        raise Undecided('result type of %s' % name)

    def pure(s, name, args):
        a = []
        for x in args:
            if x is UNDEF: return UNDEF
            a.append(tofloat(x) if not (isinstance(x, T)) else x)
        if name == 'sqrt' and isfc(a[0]):
            v = a[0].args[0]
            import math as _m
            if v >= 0:
                n, d = _m.isqrt(v.numerator), _m.isqrt(v.denominator)
                if n * n == v.numerator and d * d == v.denominator: return fc(Fraction(n, d))
        if name == 'fabs':
            if isfc(a[0]): return fc(abs(a[0].args[0]))
            if a[0].op in ('fabs', 'sqrt') or a[0].args == ('nan',): return a[0]
            if a[0].op == 'fneg': return mk('fabs', a[0].args[0])
        if name in ('fmax', 'fmin') and not STRICT[0]:
            x, y = a
            return ite(flt(x, y), y, x) if name == 'fmax' else ite(flt(y, x), y, x)
        if name == 'pow' and isfc(a[1]) and not STRICT[0]:
            e = a[1].args[0]
            if e.denominator == 1 and 0 <= e <= 8:
                r = F1
                for _ in range(int(e)): r = fbin('fmul', r, a[0])
                return r
        if name == 'fma':
            return fbin('fadd', fbin('fmul', a[0], a[1]), a[2])
        if name in ('floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint') and isfc(a[0]):
            import math as _m
            v = a[0].args[0]
            return fc({'floor': _m.floor, 'ceil': _m.ceil, 'trunc': int}.get(name, round)(v))
        return mk(name, *a)

    MATH = {'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh',
            'atanh', 'exp', 'exp2', 'log', 'log2', 'log10', 'pow', 'cbrt', 'fabs', 'floor', 'ceil', 'fmax', 'fmin', 'fmod', 'round',
            'hypot', 'trunc', 'log1p', 'expm1', 'erf', 'tgamma', 'rint', 'nearbyint', 'fma', 'copysign', 'lround'}

    def intrinsic(s, name, a, st, rt):
        b = name.split('.')
        k = b[1]
        if k in ('lifetime', 'dbg', 'assume', 'invariant', 'experimental', 'prefetch', 'donothing', 'var', 'annotation', 'stackrestore', 'va_start', 'va_end', 'trap'): return None
        if k == 'stacksave': return 0
        if k == 'threadlocal': return a[0]
        if k in ('memcpy', 'memmove'): s.memcpy(st, a[0], a[1], a[2]); return None
        if k == 'memset':
            if not isinstance(a[2], int): raise Undecided('memset of symbolic length')
            if a[2] == 0: return None
            if not isinstance(a[0], P): raise Undecided('memset through %s' % show(a[0]))
            if not s.check(st, a[0], a[2], 'memset'): return None
            c = st.wcells(a[0].obj); o = sgn(a[0].off, 64)
            s.kill(c, o, a[2], a[0].obj) if a[2] <= 4096 else [c.pop(x) for x in list(c) if o <= x < o + a[2]]
            if a[1] == 0: s.fill_zero(c, o, a[2])
            else:
                for i in range(a[2]): c[o + i] = (1, a[1] & 255 if isinstance(a[1], int) else UNDEF)
            return None
        if k in s.MATH: return s.pure(k, a)
        if k == 'powi': return s.pure('pow', [a[0], fc(sgn(a[1], 32))])
        if k in ('maxnum', 'minnum', 'maximum', 'minimum'): return s.pure('fmax' if k[:3] == 'max' else 'fmin', a)
        if k == 'fmuladd': return s.pure('fma', a)
        if name.startswith('llvm.x86.') and isinstance(a[0], tuple) and name.split('.')[3] in ('max', 'min'):   # second operand unless the comparison holds
            return tuple(ite(fcmp('ogt' if name.split('.')[3] == 'max' else 'olt', x, y), x, y) for x, y in zip(a[0], a[1]))
        if k in ('umax', 'umin', 'smax', 'smin'):
            w = rt.n; lt = icmp(k[0] + 'lt', w, a[0], a[1])
            return ite(lt, a[1], a[0]) if k[1:] == 'max' else ite(lt, a[0], a[1])
        if k == 'abs':
            w = rt.n; return ite(icmp('slt', w, a[0], 0), ibin('sub', w, 0, a[0]), a[0])
        if k == 'expect' or k == 'launder' or k == 'strip' or k == 'ssa': return a[0]
        if k == 'objectsize': return (1 << rt.n) - 1
        if k == 'is':
            if b[2] == 'constant': return 0
            if b[2] == 'fpclass':
                x = tofloat(a[0]); m = a[1]; out = 0
                if m & 3: out = bor(out, isnan(x))
                if m & 0x204: out = bor(out, mk('isinf', x) if x.op != 'fc' else int(x.args[0] in ('inf', '-inf')))
                if m & ~0x207: raise Undecided('fpclass %x' % m)
                return out
        if k == 'ctlz' and isinstance(a[0], int): return rt.n - a[0].bit_length()
        if k == 'cttz' and isinstance(a[0], int):
            return rt.n if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
        if k in ('umul', 'uadd', 'smul', 'sadd', 'usub', 'ssub') and b[2] == 'with':
            w = rt.e[0].n
            r = ibin(k[1:], w, a[0], a[1])
            if isinstance(r, int):
                x, y = (a[0], a[1]) if k[0] == 'u' else (sgn(a[0], w), sgn(a[1], w))
                e = {'mul': x * y, 'add': x + y, 'sub': x - y}[k[1:]]
                return (r, int(not (0 <= e < 1 << w) if k[0] == 'u' else not (-(1 << w - 1) <= e < 1 << w - 1)))
            return (r, 0)
        if k in ('fshl', 'fshr', 'bswap', 'ctpop', 'bitreverse'):
            if all(isinstance(x, int) for x in a): 
                if k == 'ctpop': return bin(a[0]).count('1')
                if k == 'fshl':
                    w = rt.n; sh = a[2] % w
                    return ((a[0] << sh) | (a[1] >> (w - sh))) & ((1 << w) - 1) if sh else a[0]
            raise Undecided(name)
        if k == 'eh': return 0
        if k == 'umul': pass
        if k == 'vector' and b[2] == 'reduce':
            r = a[0][0]
            for x in a[0][1:]: r = ibin(b[3], rt.n, r, x)
            return r
        raise Undecided('intrinsic %s' % name)

    def extern(s, name, a, st, rt):
        if name.startswith('uf_'):   # an uninterpreted pure function declared by a driver
            return mk('uf:' + name[3:], *[tofloat(x) if isinstance(x, T) and x.op == 'fc' else x if not isinstance(x, Undef) else mk('undef') for x in a])
        base = name[:-1] if name.endswith(('f', 'l')) and name[:-1] in s.MATH and name not in s.MATH else name
        if base in s.MATH: return s.pure(base, a)
        if name in ('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnwmSt11align_val_t'):
            if not isinstance(a[0], int): raise Undecided('allocation of symbolic size')
            return P(s.new_obj('heap', a[0], 'heap'), 0)
        if name == 'calloc':
            o = s.new_obj('heap', a[0] * a[1], 'heap'); s.fill_zero(st.wcells(o), 0, o.size); return P(o, 0)
        if name == 'realloc':
            o = s.new_obj('heap', a[1], 'heap')
            if isinstance(a[0], P): s.memcpy(st, P(o, 0), a[0], min(a[0].obj.size, a[1]))
            return P(o, 0)
        if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t'): return None
        if name in ('memcpy', 'memmove'): s.memcpy(st, a[0], a[1], a[2]); return a[0]
        if name in ('memcmp', 'bcmp') and isinstance(a[2], int):
            if a[2] == 0: return 0
            if isinstance(a[0], P) and isinstance(a[1], P):
                u = a[2] % 8 and 1 or 8; eqs = 1; ty = ir.int_t(8 * u)
                for k in range(0, a[2], u):
                    x = s.load(st, P(a[0].obj, ibin('add', 64, a[0].off, k)), ty); y = s.load(st, P(a[1].obj, ibin('add', 64, a[1].off, k)), ty)
                    e = icmp('eq', 8 * u, x, y)
                    if e in (0, False) and isinstance(x, int) and isinstance(y, int) and eqs == 1:
                        if name == 'bcmp': return 1
                        bx = x.to_bytes(u, 'little'); by = y.to_bytes(u, 'little')
                        return (1 << 32) - 1 if bx < by else 1
                    eqs = band(eqs, e)
                return ite(eqs, 0, 1) if isinstance(eqs, T) else 0 if eqs else 1
        if name in ('_ZNSt8__detail15_List_node_base7_M_hookEPS0_', '_ZNSt8__detail15_List_node_base9_M_unhookEv'):
            ld = lambda p, k: s.load(st, P(p.obj, p.off + 8 * k), ir.PTR)
            def stq(p, k, v): s.store(st, P(p.obj, p.off + 8 * k), v, 8)
            if 'unhook' in name:
                nx, pv = ld(a[0], 0), ld(a[0], 1); stq(pv, 0, nx); stq(nx, 1, pv)
            else:
                pv = ld(a[1], 1); stq(a[0], 0, a[1]); stq(a[0], 1, pv); stq(pv, 0, a[0]); stq(a[1], 1, a[0])
            return None
        if name == 'memset': return s.intrinsic('llvm.memset.x', a, st, rt) or a[0]
        if name == '__cxa_guard_acquire': return 1
        if name == '__cxa_guard_release' and isinstance(a[0], P) and isinstance(a[0].off, int):      # a local static is initialised once
            st.wcells(a[0].obj)[a[0].off] = (1, 1); return None
        if name in ('__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit', 'atexit', '_ZNSt8ios_base4InitC1Ev', '_ZSt9terminatev'): return 0 if rt.k != 'void' else None
        if name == 'strlen' and isinstance(a[0], P):
            n = 0
            while True:
                v = s.load(st, P(a[0].obj, a[0].off + n), ir.int_t(8))
                if v == 0: return n
                if not isinstance(v, int): raise Undecided('strlen')
                n += 1
        f = s.m.funcs.get(name)
        if f is not None:
            f.parse()
            if s.m.noreturn(f): return DEAD
        d = s.dem.get(name, name)
        if d.startswith('std::__throw') or name.startswith('__cxa_throw') or name in ('abort', 'exit'): return DEAD
        s.unknown[d] = s.unknown.get(d, 0) + 1
        return s.event(name, a, st, rt)


def isfp(t): return t.k in ('double', 'float', 'fp80', 'half', 'fp128')


def ins_at(v, idx, x):
    l = list(v)
    l[idx[0]] = x if len(idx) == 1 else ins_at(l[idx[0]], idx[1:], x)
    return tuple(l)


def merge_val(c, a, b, t):
    if a is b: return a
    if a is None or b is None: return a if b is None else b
    if t is not None and t.k == 'int' and t.n == 1: return bite(c, a, b)
    if isinstance(a, tuple) or isinstance(b, tuple):
        if a is UNDEF: return b
        if b is UNDEF: return a
        return tuple(merge_val(c, x, y, None) for x, y in zip(a, b))
    if isinstance(a, T) and isinstance(b, int) and not isinstance(b, bool) and b in (0, 1) and isbool(a): return bite(c, a, b)
    if isinstance(b, T) and isinstance(a, int) and a in (0, 1) and isbool(b): return bite(c, a, b)
    if isinstance(a, T) and isinstance(b, int) and b == 0 and a.op not in BOOLOPS: b2 = b
    return ite(c, a, b)


def run_big_stack(fn):
    """run fn on a thread with a large stack (deep recursion in the pass)"""
    out = {}
    def w():
        try: out['r'] = fn()
        except BaseException as e: out['e'] = e
    threading.stack_size(1 << 30)
    t = threading.Thread(target=w); t.start(); t.join()
    if 'e' in out: raise out['e']
    return out['r']
