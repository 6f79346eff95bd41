from systems import *
F = Fraction


class Pt:
    def __init__(s, b): at = lambda k: inp('in[%d]' % (b + k)); s.m = at(0); s.x = V(at(1), at(2), at(3)); s.v = V(at(4), at(5), at(6)); s.r = at(7)
    def vals(s): return [s.m, *s.x, *s.v, s.r]


def tot(l):
    r = l[0]
    for y in l[1:]: r = r + y
    return r
M = lambda ps: tot([p.m for p in ps])
XC = lambda ps: tot([p.x * p.m for p in ps]) / M(ps)
VC = lambda ps: tot([p.v * p.m for p in ps]) / M(ps)
EK = lambda ps: tot([p.m * p.v.norm2() for p in ps]) / 2
def pairs(ps): return list(itertools.combinations(ps, 2))
EP = lambda ps: -tot([E(0)] + [a.m * b.m / (a.x - b.x).norm() for a, b in pairs(ps)])
def size(ps):
    if len(ps) == 1: return ps[0].r
    r = E(0)
    for a, b in pairs(ps): r = emax(r, (a.x - b.x).norm())
    return r


def run():
    c = Check('P22', 'Particle helpers', 'value graphs of the helpers on single particles, argument lists, arrays and containers, over plain particle sets and every particle system, against the textbook expressions', min_obl=2500)
    sysids = sorted(SYS)
    mods = c.compile_many([(('helpers.cpp',), {}), (('arrays.cpp',), {})] + [(('energies.cpp',), dict(defs=['SYS=%d' % i])) for i in sysids])
    mh, ma = mods[:2]; me = dict(zip(sysids, mods[2:]))
    nmax = 5 if c.thorough else 4

    def gen(nm, typ, rng):
        mm = re.match(r'in\[(\d+)\]', nm)
        if not mm: return None
        k = int(mm.group(1))
        if 8 <= k < 120 and (k - 8) % 8 in (0, 7): return pit.rnd(rng, 0.3, 2)
        if k in (128, 129, 130, 136, 137, 138, 139, 140): return pit.rnd(rng, 0.3, 3)
        if k == 131: return pit.rnd(rng, 0.05, 0.9)
        return None

    def dom(nm):
        mm = re.match(r'in\[(\d+)\]', nm); k = int(mm.group(1)) if mm else -1
        if 8 <= k < 120 and (k - 8) % 8 in (0, 7) or 128 <= k < 131 or 136 <= k < 141: return 0, None
        if k == 131: return 0, 1
    gen.dom = dom

    def cells(kind, nm, R, spec, off=0, **kw):
        for k, (lab, s) in enumerate(spec): c.eq(kind, '%s: %s' % (nm, lab), c.out(R, off + k), s, gen=kw.get('g', gen), envs=kw.setdefault('envs', []))
    vec = lambda lab, v: [('%s %s' % (lab, 'xyz'[k]), s) for k, s in enumerate(v)]

    def vals(form, n):
        R = c.run(mh, 'vals_' + form, 20, {0: n})
        nm = '%s of %d' % ({'vec': 'container', 'var': 'argument list' if n > 1 else 'single particle', 'grp': 'array'}[form], n)
        if not c.usable(R, 'value', nm): return
        ps = [Pt(8 + 8 * i) for i in range(n)]
        ek, ep = EK(ps), EP(ps); kc = M(ps) * VC(ps).norm2() / 2
        cells('value', nm, R, [('total mass', M(ps))] + vec('centre of mass position', XC(ps)) + vec('centre of mass velocity', VC(ps)) +
              [('kinetic energy', ek), ('potential energy', ep), ('kinetic energy of the centre of mass', kc), ('total energy', ek + ep), ('inner energy', ek + ep - kc), ('cluster size', size(ps))])

    def moves(form, w, n):
        R = c.run(mh, 'mv_%s_%d' % (form, w), 60, {0: n})
        nm = '%s, %s of %d' % (['move to a position', 'move to a velocity', 'move to a position and velocity', 'move to the centre of mass frame', 'move to where its first particle is', 'move to where its first particle is, in two calls', 'move onto an orbit'][w],
                               'container' if form == 'vec' else 'argument list', n)
        if not c.usable(R, 'move', nm): return
        ps = [Pt(8 + 8 * i) for i in range(n)]
        at = lambda k: inp('in[%d]' % k)
        tp, tv = V(at(120), at(121), at(122)), V(at(123), at(124), at(125))
        if w == 3: tp = tv = V(0, 0, 0)
        elif w in (4, 5): tp, tv = ps[0].x, ps[0].v
        elif w == 6: tp, tv = V(*[E(c.out(R, 8 * n + k)) for k in range(3)]), V(*[E(c.out(R, 8 * n + 3 + k)) for k in range(3)])
        dx = tp - XC(ps); dv = tv - VC(ps)
        if w == 0: dv = V(0, 0, 0)
        if w == 1: dx = V(0, 0, 0)
        sp = []
        for i, p in enumerate(ps): sp += [('mass of particle %d' % i, p.m)] + vec('position of particle %d' % i, p.x + dx) + vec('velocity of particle %d' % i, p.v + dv) + [('radius of particle %d' % i, p.r)]
        cells('move', nm, R, sp)

    def pair(form, n1, n2):
        fx = {0: n1, 1: n2}
        A = [Pt(8 + 8 * i) for i in range(n1)]; B = [Pt(64 + 8 * i) for i in range(n2)]
        nm = 'clusters of %d and %d (%s)' % (n1, n2, form)
        R = c.run(mh, 'pair_' + form, 20, fx)
        m1, m2 = M(A), M(B); u = m1 + m2; d = XC(A) - XC(B); v = VC(A) - VC(B); r = d.norm()
        a = 1 / (2 / r - v.norm2() / u); ev = (d * (v.norm2() - u / r) - v * d.dot(v)) / u; e = ev.norm()
        at = lambda k: inp('in[%d]' % k); R1, R2, f = at(136), at(137), at(138)
        if c.usable(R, 'pair', nm):
            S1, S2 = size(A), size(B)
            et = lambda p, q: -m1 * m2 * (p + q) / (r * r)
            tf = lambda p, q: [('tidal factor of the first', m2 / m1 * (p / r)**3), ('tidal factor of the second', m1 / m2 * (q / r)**3)]
            tr = lambda q: fn('pow')(m1 / (f * m2), E(F(1, 3))) * q
            sp = [('reduced mass', m1 * m2 / u), ('eccentricity', e), ('semi-major axis', a), ('semi-major axis (pair)', a), ('eccentricity (pair)', e), ('tidal energy, given sizes', et(R1, R2)), ('tidal energy', et(S1, S2))] + tf(R1, R2) + tf(S1, S2)
            if form == 'vv':
                tq = lambda t, p, q, y: fn('pow')(p / (t * q), E(F(1, 3))) * y
                r2 = tq(f, R1, R2, at(140)); r1 = tq(f, R2, R1, at(139))
                sp += [('tidal radius, given size', tr(R2)), ('tidal radius', tr(S2)), ('tidal radius of masses', tq(f, R1, R2, at(139))), ('mutual tidal radius of masses', emax(r1, r2))]
            cells('pair', nm, R, sp)
        # bound and unbound pairs
        for lab, lo, hi, bound in (('bound', 0.05, 0.3, True), ('unbound', 3, 6, False)):
            def g(name, typ, rng):
                mm = re.match(r'in\[(\d+)\]', name); k = int(mm.group(1)) if mm else 0
                if 8 <= k < 120 and (k - 8) % 8 in (4, 5, 6): return (pit.rnd(rng, lo, hi)) * (1 if k < 64 else -1)
                return gen(name, typ, rng)
            R = c.run(mh, 'time_' + form, 2, fx)
            if c.usable(R, 'time to periapsis', nm):
                p = d.cross(v).norm2() / u; nu = acos((p / r - 1) / e)
                if bound: Ea = 2 * atan(sqrt((1 - e) / (1 + e)) * tan(nu / 2)); t = sqrt(a * a * a / u) * (Ea - e * sin(Ea))
                else: H = 2 * fn('atanh')(sqrt((e - 1) / (e + 1)) * tan(nu / 2)); t = sqrt(-a * a * a / u) * (e * sinh(H) - H)
                c.eq('time to periapsis', '%s, %s' % (nm, lab), fabs(E(c.out(R, 0))), fabs(t), gen=g)
            if bound:
                R = c.run(mh, 'per_' + form, 2, fx)
                if c.usable(R, 'pair', nm + ': period'): c.eq('pair', nm + ': period', c.out(R, 0), 2 * E(F(314159265358979323846264338327950288, 10**35)) * sqrt(a * a * a / u), gen=g)

    def arrays(n):
        at = lambda k: inp('in[%d]' % k)
        a, b, cc, d = [[at(o + i) for i in range(n)] for o in (8, 16, 24, 32)]
        v, w = [[V(at(o + 3 * i), at(o + 3 * i + 1), at(o + 3 * i + 2)) for i in range(n)] for o in (40, 60)]
        s, t = at(80), at(81)
        z = lambda *l: list(zip(*l))
        fl = lambda l: [y for x in l for y in x]
        sm = lambda l: tot([E(0)] + list(l)); vs = lambda l: tot([V(0, 0, 0)] + list(l))
        T = dict(dot2=[sm(x * y for x, y in z(a, b)), sm(x * y * q for x, y, q in z(a, b, cc)), sm(x * y * q * r for x, y, q, r in z(a, b, cc, d)), *vs(y * x for x, y in z(a, v)), sm(a)],
                 add2=[x + y for x, y in z(a, b)], add3=[x + y + q for x, y, q in z(a, b, cc)], addv=fl(x + y for x, y in z(v, w)), zero=[E(0)] * (5 * n), zero1=[E(0)] * n, scale=[x * s for x in a], scalei=[x * s for x in a], scalev=fl(x * s for x in v),
                 scadd=[(x + y) * s for x, y in z(a, b)], scadd2=[x * s + y * t for x, y in z(a, b)], scsub=[(x - y) * s for x, y in z(a, b)], divsc=[x / s for x in a], mul2=[x * y for x, y in z(a, b)], mul3=[x * y * q for x, y, q in z(a, b, cc)],
                 sub=[x - y for x, y in z(a, b)], subi=[x - y for x, y in z(a, b)], adiv=[x / y for x, y in z(a, b)], adv1=[x + y for x, y in z(a, b)], adv2=[x + y * s for x, y in z(a, b)], adv3=[x + y * s for x, y in z(a, b)], advv=fl(x + y * s for x, y in z(v, w)),
                 ret1=[x - y for x, y in z(a, b)], ret2=[x - y * s for x, y in z(a, b)], ret3=[x - y * s for x, y in z(a, b)], cdot=[x.dot(y) for x, y in z(v, w)], contr=[sm(x.dot(y) * q for x, y, q in z(v, w, a)), sm(x.dot(y) for x, y in z(v, w))])
        if n:
            com = vs(y * x for x, y in z(a, v)) / sm(a)
            T.update(com=list(com), tocom=fl(x - com for x in v))
            T['folds'] = [a[0] + b[0] + cc[0], a[0] * b[0] * cc[0], where((a[0] < b[0]) | (b[0] < cc[0]) | (s < t), 1, 0), where((a[0] < b[0]) & (b[0] < cc[0]) & (s < t), 1, 0)]
        if n > 1:
            mn = None
            for i, j in itertools.combinations(range(n), 2):
                q = (v[i] - v[j]).norm(); q = q * sqrt(q) / sqrt(a[i] + a[j]); mn = q if mn is None else emin(mn, q)
            T['fall'] = [mn * E(F(314159265358979323846264338327950288, 2 * 10**35)) / sqrt(E(2))]
        k, ke, j, je = [[at(o + i) for i in range(n)] for o in (8, 16, 24, 32)]
        x, xe, y, ye = [[at(o + i) for i in range(3 * n)] for o in (40, 60, 82, 100)]
        mix = lambda p, q: fl(z(p, q)); zz = lambda m: [E(0)] * m
        T.update(eload=mix(k, cc) + mix(x, fl(w)), esave=ke + xe, ecopy=mix(k, je) + mix(x, ye), ezero=mix(k, zz(n)) + mix(x, zz(3 * n)), eplain=fl(v))
        def g(nm, typ, rng):
            mm = re.match(r'in\[(\d+)\]', nm)
            return pit.rnd(rng, 0.3, 2) if mm and 8 <= int(mm.group(1)) < 16 else None
        g.dom = lambda nm: (0, None)
        for f, sp in T.items():
            R = c.run(ma, f, 60, {0: n})
            nm = '%s on arrays of %d' % (f, n)
            if not c.usable(R, 'array', nm): continue
            envs = []
            for i, q in enumerate(sp): c.eq('array', '%s [%d]' % (nm, i), c.out(R, i), q, gen=g, envs=envs)

    def energies(sysid, entry, n, drift):
        m = me[sysid]
        orders = some_orders(n, c, 3) if entry == 'ene_sys' and SYS[sysid][1] else [tuple(range(n))]
        for o in orders:
            nm = '%s n=%d%s%s' % (SYS[sysid][0] if entry == 'ene_sys' else 'plain particles', n, ' after a drift' if drift else '', ' order ' + ''.join(map(str, o)) if len(orders) > 1 else '')
            R = c.run(m, entry, 160, {0: n, 102: drift}, intercepts=chain_intercept([o, o]) if entry == 'ene_sys' and SYS[sysid][1] else ())
            if not c.usable(R, 'energy', nm): continue
            at = lambda k: inp('in[%d]' % k)
            ps = []
            for i in range(n):
                p = Pt(0); b = 2 + 7 * i
                if entry == 'ene_sys' and drift: val = lambda k, i=i: E(c.out(R, 101 + 7 * i + k))
                else: val = lambda k, b=b: at(b + k)
                p.m, p.x, p.v = val(0), V(val(1), val(2), val(3)), V(val(4), val(5), val(6)); ps.append(p)
            L = lambda q: tot([p.x.cross(p.v) * p.m for p in q])
            Li = lambda q: tot([(p.x - XC(q)).cross(p.v - VC(q)) * p.m for p in q])
            k, u = EK(ps), EP(ps); regu = entry == 'ene_sys' and SYS[sysid][2]
            def g(name, typ, rng):
                mm = re.match(r'in\[(\d+)\]', name); q = int(mm.group(1)) if mm else 0
                return pit.rnd(rng, 0.3, 2) if q < 100 and (q - 2) % 7 == 0 else None
            g.dom = lambda nm: (0, None)
            kw = dict(gen=g, envs=[])
            lab = [('kinetic energy', k), ('potential energy', u), ('total energy', k + u)] + vec('angular momentum', L(ps))
            for i, (l, s) in enumerate(lab): c.eq('energy', '%s: %s' % (nm, l), c.out(R, i), s, **kw)
            if not (drift and regu in ('LogH', 'TTL')):
                c.eq('energy', nm + ': step scale', c.out(R, 6), -u if regu in ('LogH', 'TTL') else E(1), **kw)
            if regu:
                if drift: c.eq('energy', nm + ': energy error', c.out(R, 7), log(fabs((k + E(c.out(R, 60))) / u)), **kw)
            else: c.eq('energy', nm + ': energy error', c.out(R, 7), fabs((k + u - at(100)) / at(100)), **kw)
            sub = []
            for i in range(n):
                sub.append(ps[n - 1 - i])
                for q, s in enumerate([*L(sub), *Li(sub)]): c.eq('energy', '%s: %s of %d particles' % (nm, 'angular momentum' if q < 3 else 'isolated angular momentum', i + 1), c.out(R, 8 + 6 * i + q), s, scale=mpf(10)**-3, **kw)

    def epair():
        R = c.run(me[0], 'ene_pair', 2)
        if c.usable(R, 'energy', 'pair'):
            at = lambda k: inp('in[%d]' % k)
            c.eq('energy', 'potential energy of a pair', c.out(R, 0), -at(2) * at(9) / (V(at(3), at(4), at(5)) - V(at(10), at(11), at(12))).norm())
    jobs = [(vals, f, n) for f in ('vec', 'var', 'grp') for n in range(2 if f == 'grp' else 1, nmax + 1) if not (f != 'vec' and n > 4)]
    jobs += [(moves, f, w, n) for f in ('vec', 'var') for w in range(7) for n in range(1, nmax + 1) if not (f == 'vec' and w == 6) and not (f == 'var' and n > 4)]
    jobs += [(pair, 'vv', a, b) for a in range(1, 4) for b in range(1, 4)] + [(pair, 'pp', 1, 1), (pair, 'pv', 1, 2), (pair, 'pv', 1, 3), (pair, 'vp', 2, 1), (pair, 'vp', 3, 1)]
    jobs += [(arrays, n) for n in range(0, 5)] + [(epair,)]
    jobs += [(energies, 0, 'ene_ptc', n, 0) for n in range(1, nmax + 1)]
    jobs += [(energies, i, 'ene_sys', n, dr) for i in sysids for n in range(2, nmax + 1) for dr in (0, 1)]
    c.parallel(jobs, lambda j: j[0](*j[1:]))
    return c.finish()
