"""Compensated state: the compensation of every state variable is carried through every operation."""
from systems import *
import zlib
from p24 import Ieee, np


class Num(Ieee):
    """IEEE interpretation in which unknown functions are arbitrary but fixed"""
    def ev(s, t):
        if isinstance(t, T) and t.op.startswith('uf:'):
            if t not in s.memo: s.memo[t] = np.float64(random.Random(zlib.crc32(repr((s.salt, t.op, [repr(s.ev(a)) for a in t.args])).encode())).uniform(0.3, 2.7))
            return s.memo[t]
        if isinstance(t, T) and t.op in ('sqrt',):
            if t not in s.memo: s.memo[t] = np.sqrt(s.ev(t.args[0])) if not isinstance(s.ev(t.args[0]), tuple) else ('const', float(s.ev(t.args[0])[1])**.5)
            return s.memo[t]
        if isinstance(t, T) and t.op == 'in' and t.args[0] not in s.v:
            s.v[t.args[0]] = np.float64(s.draw(t.args[0]))
        return super().ev(t)


def carried(c, kind, what, plain, comp, ks, updated, env):
    """every variable k of ks: value minus compensation advances exactly as the plain value does, and the compensation of an updated one is not dropped"""
    for k, lab, rp, rr, re_, e0 in ks:
        c.eq(kind, '%s: %s, value and compensation' % (what, lab), c.out(comp, rr) if re_ is None else (E(c.out(comp, rr)) - E(c.out(comp, re_))).t, E(c.out(plain, rp)) - e0)
        if re_ is None: continue
        t = c.out(comp, re_)
        if not updated(k): c.eq(kind, '%s: %s, compensation is kept' % (what, lab), t, e0); continue
        c.decided(kind)
        nz = 0
        for trial in range(40):
            rng = random.Random(trial * 77 + k); ie = Num({}); ie.salt = trial; ie.draw = lambda nm: env(nm, rng)
            try: v = ie.ev(t)
            except (ZeroDivisionError, OverflowError): continue
            v = float(v[1]) if isinstance(v, tuple) else float(v)
            if v != 0 and v == v: nz += 1
        if nz == 0: c.violation(kind, '%s: %s, compensation' % (what, lab), 'the rounding error of the update is dropped: the compensation is always zero (value number %s)' % str(t)[:300])


def run():
    c = Check('P36', 'Compensated state', 'value graphs of the same operations over plain and over compensated numbers, over uninterpreted forces: in the compensated form value minus compensation of every state variable advances by the plain increment minus the prior compensation, and the strict floating-point terms of the new compensation do not vanish', min_obl=400)
    mods = dict(zip(list(SYS) + ['it'], c.compile_many([(('comp.cpp',), dict(defs=['SYS=%d' % i])) for i in SYS] + [(('comp.cpp',), {})])))
    def env(nm, rng):
        k = int(nm[3:-1]) if nm.startswith('in[') and nm[3:-1].isdigit() else -1
        return rng.uniform(-1e-17, 1e-17) if 400 <= k < 500 else rng.uniform(0.001, 0.01) if k in (0, 1, 200) else rng.uniform(0.3, 2.7)
    progs = {'drift': [1], 'kick': [2], 'copy': [3], 'move': [4]}
    jobs = [('sys', s, l, n) for s in SYS for l in LISTS for n in ((2, 3, 4) if c.thorough else (2, 3))] + [('it', f) for f in ('radau', 'radau2', 'bs', 'seq', 'cst')]

    def variables(sysid, lst, n):
        r = Ref(n, sysid, lst, E(1), [tuple(range(n))] * 2); off = layout(c, lay[sysid], sysid, lst, n)
        if off is None: return None
        return {off[b] + i: b for b, w in blocks(r).items() for i in range(w)}

    def both(m, nm, fixed, icp, nout=300):
        old = vg.STRICT[0]
        try:
            vg.STRICT[0] = True
            a = c.run(m, 'plain_' + nm, nout, fixed, intercepts=icp()); b = c.run(m, 'comp_' + nm, nout, fixed, intercepts=icp())
        finally: vg.STRICT[0] = old
        return a, b

    def job(j):
        if j[0] == 'it':
            f = j[1]; a, b = both(mods['it'], f, {}, tuple, 16); what = {'radau': 'Gauss-Radau step', 'radau2': 'two Gauss-Radau steps', 'bs': 'Bulirsch-Stoer step', 'seq': 'step-doubling step', 'cst': 'fixed step'}[f]
            if not (c.usable(a, 'iterator', what) and c.usable(b, 'iterator', what)): return
            if f in ('seq', 'cst'):
                # an opaque integrator over (value, compensation): whatever it leaves is what the system holds, started from the state given
                for i in (0, 1):
                    c.eq('iterator', '%s: value of variable %d' % (what, i), c.out(b, 2 * i), E(seqref(f, i, 'sr')))
                    c.eq('iterator', '%s: compensation of variable %d' % (what, i), c.out(b, 2 * i + 1), E(seqref(f, i, 'se')))
                return
            carried(c, 'iterator', what, a, b, [(i, 'variable %d' % i, 2 * i, 2 * i, 2 * i + 1, inp('in[%d]' % (400 + i))) for i in (0, 1)], lambda k: True, env)
            return
        _, sysid, lst, n = j
        V = variables(sysid, lst, n)
        if V is None: return
        for nm, ops in progs.items():
            for o in (some_orders(n, c, 2) if SYS[sysid][1] else [()]):
                fx = {0: n, 64 + 2 * len(ops): 0}
                for k, op in enumerate(ops): fx[64 + 2 * k] = op; fx[65 + 2 * k] = 0
                what = name_of(sysid, lst, n, [o], [(nm, None)])
                if nm in ('copy', 'move'): groups = [sorted(V)]
                else:                                      # one block at a time carries a compensation in
                    bl = {'drift': ('time', 'pos'), 'kick': ('vel', 'aux') + (('om',) if SYS[sysid][2] == 'TTL' else ()) + (('B',) if SYS[sysid][2] == 'LogH' else ())}[nm]
                    groups = [[k for k in sorted(V) if V[k] == b] for b in bl]
                for ks in groups:
                    if not ks: continue
                    f2 = dict(fx)
                    for k in V:
                        if k not in ks: f2[400 + k] = 0
                    p, q = both(mods[sysid], lst, f2, lambda: chain_intercept([o] * 4) if SYS[sysid][1] else ())
                    if not (c.usable(p, 'system', what) and c.usable(q, 'system', what)): continue
                    carried(c, 'system', what, p, q, [(k, '%s[%d]' % (V[k], k), 1 + 2 * k, 1 + 2 * k, 2 + 2 * k, inp('in[%d]' % (400 + k))) for k in ks], lambda k: nm in ('drift', 'kick'), env)
    lay = modules(c, list(SYS))
    c.parallel(jobs, job)
    return c.finish()


def seqref(f, i, w):
    r, e = inp('in[%d]' % (300 + i)).t, inp('in[%d]' % (400 + i)).t; h = inp('in[0]')
    if f == 'cst': return mk('uf:' + w, fc(i), r, e, h.t)
    h2 = h / 2
    for last in range(2):
        r, e = (mk('uf:sr', fc(i), r, e, h2.t), mk('uf:se', fc(i), r, e, h2.t))
    return r if w == 'sr' else e
