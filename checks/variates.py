"""Random engines and the two standard distributions cut at their variates."""
from hx import *
F = Fraction


def cut():
    """-> (log of the draws, intercepts)"""
    LG = dict(u=[], z=[], k=0, ranges=[], engines={}, rd=0, draws=[])

    def draw(kind, g, st, obj):
        s = LG[kind]; n = LG['k']; LG['k'] += 1
        LG['draws'].append(obj.obj if isinstance(obj, P) else None)
        if n < len(LG['script']): return E(F(LG['script'][n]))
        if LG['script']: raise Undecided('more draws than the script has')
        return E(mk('in', '%s[%d]' % (kind, n), 'f'))

    def canonical(g, st, a, rt, n): return fcv(draw('u', g, st, a[0]))

    def normal(g, st, a, rt, n):
        q = a[2] if len(a) > 2 else a[0]
        mean, sd = (E(vg.tofloat(g.load(st, P(q.obj, q.off + o), ir.DBL))) for o in (0, 8))
        LG['ranges'].append(('spread', sd, E(0)))
        return fcv(mean + sd * draw('z', g, st, a[1]))

    def rng_param(g, st, a, rt, n):
        LG['ranges'].append(('range', E(vg.tofloat(a[2])), E(vg.tofloat(a[1]))))
        return g.call_fn(n, a, st, 8)

    def seed(g, st, a, rt, n):
        LG['engines'][a[0].obj] = a[1] if len(a) > 1 else 0; return None if rt.k == 'void' else a[0]

    def rd(g, st, a, rt, n):
        LG['rd'] += 1; return mk('in', 'device[%d]' % LG['rd'], rt.n if rt.k == 'int' else 'f')

    def rootf(g, st, a, rt, n): LG['roots'].append(a[0]); return mk('in', 'root', 'f')

    def fcv(x): return x.t if isinstance(x, E) else x
    icp = [(r'^double std::generate_canonical<', canonical), (r'^double std::normal_distribution<double>::operator\(\)', normal),
           (r'^std::uniform_real_distribution<double>::param_type::param_type\(double, double\)', rng_param),
           (r'^std::mersenne_twister_engine<.*>::(?:mersenne_twister_engine|seed)\(', seed), (r'^std::random_device::operator\(\)', rd),
           (r'^uf_root$', rootf), (r'^uf_x$', lambda g, st, a, rt, n: mk('in', 'x', 'f')),
           (r'^std::random_device::', lambda g, st, a, rt, n: None if rt.k == 'void' else a[0])]

    def reset(script=()): LG.update(script=list(script), k=0, ranges=[], engines={}, rd=0, draws=[], roots=[])
    return LG, icp, reset
