"""shared by P12-P15, P17: a program of system operations against a reference model of the equations of motion"""
import itertools, random, re
from hx import *
SYS = {0: ('Simple', False, None), 1: ('Chain', True, None), 2: ('Regularized<LogH>', False, 'LogH'), 3: ('Regularized<TTL>', False, 'TTL'),
       4: ('ARchain<LogH>', True, 'LogH'), 5: ('ARchain<TTL>', True, 'TTL'), 6: ('Regularized<None>', False, 'None'), 7: ('ARchain<None>', True, 'None')}
LISTS = {'n': (False, False), 's': (True, False), 'd': (False, True), 'sd': (True, True)}
OPS = dict(drift=1, kick=2, pre=3, post=4, clear=5, on=6, off=7, write=8, read=9, deriv=10, array=11, state=12, inc=13, scale=14, fill=15, meta=16, resize=17, acc=18, mass=19)


LAYOUT = {}   # (system, forces, n) -> offsets the code declares


def blocks(s):
    b = dict(time=1, pos=3 * s.n, vel=3 * s.n)
    if s.D: b['aux'] = 3 * s.n
    if s.regu: b['om'] = b['B'] = 1
    return b


def layout(c, m, sysid, lst, n, kind='layout'):
    """reads the declared offsets; obligation: the blocks tile the array exactly"""
    if (sysid, lst, n) in LAYOUT: return LAYOUT[(sysid, lst, n)]
    o0 = tuple(range(n)); prog = [('meta', None)]
    nm = name_of(sysid, lst, n, [o0], prog) + 'offsets'
    R = run_program(c, m, sysid, 'prog_' + lst, n, prog, [o0] * 2)
    r = Ref(n, sysid, lst, E(1), [o0] * 2)
    if not c.usable(R, kind, nm): return None
    lab = ['time', 'pos', 'vel', 'aux'] + (['om', 'B'] if r.regu else [])
    v = [c.out(R, k) for k in range(1 + len(lab))]
    v = [int(x) if isinstance(x, (int, float)) else int(x.args[0]) if isinstance(x, T) and x.op == 'fc' else None for x in v]
    if None in v: c.undecided(kind, nm + ': offsets are not constants'); return None
    off = dict(zip(lab, v[1:])); b = blocks(r)
    cells = sorted(off[k] + i for k in b for i in range(b[k]))
    c.true(kind, nm, v[0] == r.nvar() and cells == list(range(r.nvar())), 'variable_number %d (of %d variables), offsets %s do not tile the array' % (v[0], r.nvar(), off))
    LAYOUT[(sysid, lst, n)] = off
    return off


def ufi(k, m, t, x): return V(*[E(mk('uf:fi', fc(k), fc(a), m.t, t.t, x.x.t, x.y.t, x.z.t)) for a in range(3)])
def ufd(k, m, t, x, v): return V(*[E(mk('uf:fd', fc(k), fc(a), m.t, t.t, x.x.t, x.y.t, x.z.t, v.x.t, v.y.t, v.z.t)) for a in range(3)])


class Ref:
    """the equations of motion, written from the property"""
    def __init__(s, n, sysid, lst, G, orders):
        s.n = n; s.sysid = sysid; s.lst = lst; s.name, s.chain, s.regu = SYS[sysid]; s.S, s.D = LISTS[lst]; s.G = G
        at = lambda k: inp('in[%d]' % k)
        s.t = at(1)
        s.m = [at(2 + 7 * i) for i in range(n)]
        s.x = [V(*[at(2 + 7 * i + 1 + a) for a in range(3)]) for i in range(n)]
        s.v = [V(*[at(2 + 7 * i + 4 + a) for a in range(3)]) for i in range(n)]
        s.w = list(s.v)
        s.orders = list(orders); s.idx = s.orders.pop(0) if s.chain else tuple(range(n))
        s.om = -s.U(); s.B = -(s.T() + s.U()); s.scale = s.om if s.regu in ('LogH', 'TTL') else E(1)
        s.collect = False; s.inc = [E(0)] * s.nvar()
        s.y = []; s.out = []

    def nvar(s): return 1 + 3 * s.n * (3 if s.D else 2) + (2 if s.regu else 0)

    def U(s):
        u = E(0)
        for i, j in itertools.combinations(range(s.n), 2): u = u - s.G * s.m[i] * s.m[j] / (s.x[i] - s.x[j]).norm()
        return u

    def T(s): return sum((s.m[i] * s.v[i].norm2() for i in range(s.n)), E(0)) / 2

    def fN(s): return [ufi(0, s.m[i], s.t, s.x[i]) for i in range(s.n)]
    def fS(s): return [ufi(1, s.m[i], s.t, s.x[i]) if s.S else ZV for i in range(s.n)]
    def fD(s, v): return [ufd(2, s.m[i], s.t, s.x[i], v[i]) if s.D else ZV for i in range(s.n)]

    def pos_time(s, h):
        if s.regu == 'LogH': s.scale = s.B + s.T(); return h / s.scale
        if s.regu == 'TTL': s.scale = s.om; return h / s.om
        return h

    def vel_time(s, h):
        if s.regu in ('LogH', 'TTL'): s.scale = -s.U(); return h / s.scale
        return h

    def lay(s, a):
        """a per-particle list in the order of the state array"""
        if not s.chain: return list(a)
        return [a[s.idx[k + 1]] - a[s.idx[k]] for k in range(s.n - 1)] + [a[s.idx[0]]]

    def unlay(s, c):
        if not s.chain: return list(c)
        a = [None] * s.n; a[s.idx[0]] = c[-1]
        for k in range(1, s.n): a[s.idx[k]] = a[s.idx[k - 1]] + c[k - 1]
        return a

    def add(s, off, vals):
        if s.collect:
            for k, x in enumerate(vals): s.inc[off + k] = s.inc[off + k] + x

    def offs(s):
        l = LAYOUT.get((s.sysid, s.lst, s.n))
        if l: return l
        n = s.n; b = 1 + 3 * n * (3 if s.D else 2)
        return dict(time=0, pos=1, vel=1 + 3 * n, aux=1 + 6 * n, om=b, B=b + 1)

    def place(s, d):
        y = [E(0)] * s.nvar(); o = s.offs()
        for k in blocks(s):
            for i, x in enumerate(d[k]): y[o[k] + i] = x
        return y

    def flat(s, a): return [q for p in s.lay(a) for q in p]

    def adv(s, what, rate, dt):
        cur = getattr(s, what)
        setattr(s, what, [cur[i] + rate[i] * dt for i in range(s.n)])
        s.add(s.offs()[{'x': 'pos', 'v': 'vel', 'w': 'aux'}[what]], s.flat([r * dt for r in rate]))

    def wB(s, v, a, dt):
        if s.regu == 'LogH' and (s.S or s.D):
            d = -sum((s.m[i] * v[i].dot(a[i]) for i in range(s.n)), E(0)) * dt
            s.B = s.B + d; s.add(s.offs()['B'], [d])

    def wO(s, v, a, dt):
        if s.regu == 'TTL':
            d = sum((s.m[i] * v[i].dot(a[i]) for i in range(s.n)), E(0)) * dt
            s.om = s.om + d; s.add(s.offs()['om'], [d])

    def do(s, op, h=None):
        n = s.n; o = s.offs()
        if op == 'drift':
            dt = s.pos_time(h); s.adv('x', s.v, dt); s.t = s.t + dt; s.add(o['time'], [dt])
        elif op == 'kick':
            dt = s.vel_time(h); N = s.fN(); F = s.fS(); tot = lambda d: [N[i] + F[i] + d[i] for i in range(n)]
            if s.D:
                s.adv('v', tot(s.fD(s.w)), dt / 2)
                d = s.fD(s.v); s.adv('w', tot(d), dt)
                s.wO(s.v, N, dt); s.wB(s.v, [F[i] + d[i] for i in range(n)], dt)
                s.adv('v', tot(s.fD(s.w)), dt / 2)
            else:
                s.wO(s.v, N, dt / 2); s.wB(s.v, F, dt / 2)
                s.adv('v', tot([ZV] * n), dt)
                s.wO(s.v, N, dt / 2); s.wB(s.v, F, dt / 2)
        elif op == 'pre': s.w = list(s.v)
        elif op == 'post':
            if s.chain: s.idx = s.orders.pop(0)
        elif op == 'clear': s.inc = [E(0)] * s.nvar()
        elif op == 'on': s.collect = True
        elif op == 'off': s.collect = False
        elif op == 'write':
            s.y = s.place(dict(time=[s.t], pos=s.flat(s.x), vel=s.flat(s.v), aux=s.flat(s.w), om=[s.om], B=[s.B]))
        elif op == 'read':
            y = s.y; g = lambda b: s.unlay([V(*y[b + 3 * k:b + 3 * k + 3]) for k in range(n)])
            s.t = y[0]; s.x = g(o['pos']); s.v = g(o['vel'])
            if s.D: s.w = g(o['aux'])
            if s.regu: s.om = y[o['om']]; s.B = y[o['B']]
        elif op == 'deriv':
            p = s.pos_time(E(1)); q = s.vel_time(E(1))
            N = s.fN(); F = s.fS(); d = s.fD(s.v)
            a = [(N[i] + F[i] + d[i]) * q for i in range(n)]
            mv = lambda f: sum((s.m[i] * s.v[i].dot(f[i]) for i in range(n)), E(0)) * q
            s.y = s.place(dict(time=[p], pos=s.flat([v * p for v in s.v]), vel=s.flat(a), aux=s.flat(a), om=[mv(N) if s.regu == 'TTL' else E(0)],
                               B=[-mv([F[i] + d[i] for i in range(n)]) if s.regu == 'LogH' and (s.S or s.D) else E(0)]))
        elif op == 'fill': s.y = [inp('in[%d]' % (300 + k)) for k in range(len(s.y))]
        elif op == 'resize': s.y = (s.y + [E(0)] * h)[:h]
        elif op == 'array': s.emit('array size', [E(len(s.y))]); s.emit('array', s.y)
        elif op == 'state':
            s.emit('time', [s.t]); s.emit('omega', [s.om if s.regu else E(0)]); s.emit('bindE', [s.B if s.regu else E(0)])
            s.emit('position', [q for p in s.x for q in p]); s.emit('velocity', [q for p in s.v for q in p])
        elif op == 'inc': s.emit('increment size', [E(s.nvar())]); s.emit('increment', s.inc)
        elif op == 'scale': s.emit('step scale', [s.scale])
        elif op == 'meta':
            s.emit('variable_number', [E(s.nvar())]); s.emit('offsets', [E(o.get(k, 0)) for k in ('time', 'pos', 'vel', 'aux') + (('om', 'B') if s.regu else ())])
        elif op == 'acc':
            N = s.fN(); F = s.fS(); d = s.fD(s.v); s.emit('acceleration', [q for i in range(n) for q in N[i] + F[i] + d[i]])
        elif op == 'mass': s.emit('mass', s.m); s.emit('number', [E(n)])

    def emit(s, nm, vals): s.out += [('%s[%d]' % (nm, k) if len(vals) > 1 else nm, v) for k, v in enumerate(vals)]


def gen(nm, typ, rng):
    if nm.startswith('in['):
        k = int(nm[3:-1])
        if 2 <= k < 64 and (k - 2) % 7 == 0: return abs(default_gen(nm, typ, rng))
    return None


gen.dom = lambda nm: (0, None) if nm.startswith('in[') and 2 <= int(nm[3:-1]) < 64 and (int(nm[3:-1]) - 2) % 7 == 0 else None


def chain_intercept(orders):
    """calc_chain_index(pos, index&) yields the next ordering of the list (its construction is decided by P16)"""
    pos = [0]
    def h(g, st, args, rt, name):
        o = orders[min(pos[0], len(orders) - 1)]; pos[0] += 1
        v = args[1]
        b = g.load(st, v, ir.PTR)
        if not isinstance(b, P) or not isinstance(b.off, int) or b.obj.size is not None and b.off + 8 * len(o) > b.obj.size: raise Undecided('index array without storage')
        w = st.wcells(b.obj)
        for k, x in enumerate(o):
            w[b.off + 8 * k] = (8, x)
        st.wcells(v.obj)[v.off + 8] = (8, P(b.obj, b.off + 8 * len(o)))
        return None
    return [(r'Chain::calc_chain_index', h)]


def name_of(sysid, lst, n, orders, prog):
    return '%s forces=N%s n=%d%s: %s' % (SYS[sysid][0], '' if lst == 'n' else '+' + lst, n, ' orders=' + '>'.join(''.join(map(str, o)) for o in orders) if SYS[sysid][1] else '',
                                         ' '.join(op + ('' if a is None else str(a)) for op, a in prog if op not in ('state', 'array', 'inc', 'meta')))


def run_program(c, m, sysid, fn, n, prog, orders, nout=400):
    """prog: list of (op, arg) with arg None | int index of a symbolic argument"""
    fixed = {0: n}
    for k, (op, a) in enumerate(prog):
        fixed[64 + 2 * k] = OPS[op]; fixed[65 + 2 * k] = a or 0
        if op == 'resize': fixed[200 + a] = a
    fixed[64 + 2 * len(prog)] = 0
    return c.run(m, fn, nout, fixed, intercepts=chain_intercept(orders) if SYS[sysid][1] else ())


def modules(c, ids, defs=()):
    return dict(zip(ids, c.compile_many([(('systems.cpp',), dict(defs=['SYS=%d' % i] + list(defs))) for i in ids])))


def grav(c, m): return E(vg.fc(Fraction(1)))


def check_program(c, m, sysid, lst, n, prog, orders, kind, pick=None):
    nm = name_of(sysid, lst, n, orders, prog)
    if layout(c, m, sysid, lst, n) is None: return
    R = run_program(c, m, sysid, 'prog_' + lst, n, prog, orders)
    if not c.usable(R, kind, nm): return
    r = Ref(n, sysid, lst, E(1), orders)
    for op, a in prog: r.do(op, a if op == 'resize' else None if a is None else inp('in[%d]' % (200 + a)))
    envs = []
    for k, (lab, v) in enumerate(r.out):
        if pick is None or re.match(pick, lab): c.eq(kind, nm + ' -> ' + lab, c.out(R, k), v, gen=gen, envs=envs)


def some_orders(n, c, k=3):
    al = list(itertools.permutations(range(n)))
    if len(al) <= 2: return al
    r = random.Random(11 * n); mid = al[1:-1]; r.shuffle(mid)
    return [al[0], al[-1]] + mid[:(4 * k if c.thorough else k - 2)]
