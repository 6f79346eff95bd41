from hx import *
DFT = ()


def specs():
    """operation -> (result, a afterwards) as functions of a, b, c; None = unchanged"""
    cw = lambda f: (lambda a, b, c: [f(x, y, c) for x, y in zip(a, b)])
    S = {}
    def pure(n, f): S[n] = (cw(f), None)
    def upd(n, f): S[n] = ('zero', cw(f))
    pure('add', lambda x, y, c: x + y); pure('sub', lambda x, y, c: x - y); pure('mul', lambda x, y, c: x * y); pure('div', lambda x, y, c: x / y)
    upd('iadd', lambda x, y, c: x + y); upd('isub', lambda x, y, c: x - y); upd('imul', lambda x, y, c: x * y); upd('idiv', lambda x, y, c: x / y)
    pure('chain', lambda x, y, c: x + y * c - x / c); S['copy'] = (cw(lambda x, y, c: y), cw(lambda x, y, c: y + y))
    dot = lambda a, b: a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
    cross = lambda a, b, c=None: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    one = lambda f: (lambda a, b, c: [f(a, b, c), E(0), E(0)])
    S['dot'] = (one(lambda a, b, c: dot(a, b)), None); S['dist'] = (one(lambda a, b, c: sqrt(dot([x - y for x, y in zip(a, b)], [x - y for x, y in zip(a, b)]))), None)
    S['cross'] = (cross, None); S['across'] = ('zero', cross)
    for n, f in dict(adds=lambda x, c: x + c, subs=lambda x, c: x - c, muls=lambda x, c: x * c, divs=lambda x, c: x / c, sadd=lambda x, c: c + x, ssub=lambda x, c: c - x, smul=lambda x, c: c * x, sdiv=lambda x, c: c / x,
                     neg=lambda x, c: -x, vabs=lambda x, c: fabs(x), mabs=lambda x, c: fabs(x), splat=lambda x, c: c).items(): pure(n, lambda x, y, c, f=f: f(x, c))
    for n, f in dict(aadd=lambda x, c: x + x, asub=lambda x, c: x - x, amul=lambda x, c: x * x, adiv=lambda x, c: x / x, iadds=lambda x, c: x + c, isubs=lambda x, c: x - c, imuls=lambda x, c: x * c, idivs=lambda x, c: x / c,
                     assign=lambda x, c: c).items(): upd(n, lambda x, y, c, f=f: f(x, c))
    for n, i, f in (('ixadd', 0, lambda x, k: x + k), ('ixsub', 1, lambda x, k: x - k), ('ixmul', 0, lambda x, k: x * k), ('ixdiv', 0, lambda x, k: x / k), ('xassign', 2, lambda x, k: k)):
        S[n] = ('zero', lambda a, b, c, i=i, f=f: [f(x, a[i]) for x in a])
    n2 = lambda a: dot(a, a)
    for p in ('', 'm'):
        S[p + 'norm'] = (one(lambda a, b, c: sqrt(n2(a))), None); S[p + 'norm2'] = (one(lambda a, b, c: n2(a)), None); S[p + 'renorm'] = (one(lambda a, b, c: E(1) / sqrt(n2(a))), None)
    S['maxabs'] = (one(lambda a, b, c: emax(emax(fabs(a[0]), fabs(a[1])), fabs(a[2]))), None); S['mmax'] = (one(lambda a, b, c: emax(emax(a[0], a[1]), a[2])), None)
    S['vmax'] = (cw(lambda x, y, c: emax(x, y)), None); S['vmin'] = (cw(lambda x, y, c: emin(x, y)), None)
    S['zero'] = (lambda a, b, c: [E(0)] * 3, 'none')
    # lazy expressions
    upd('expr_', lambda x, y, c: x); S['l:aadd'] = ('zero', cw(lambda x, y, c: x + x * y)); S['l:expr'] = (cw(lambda x, y, c: x - y * x), None); S['l:imulx'] = ('zero', cw(lambda x, y, c: x * (x + y)))
    S['l:idivx'] = ('zero', cw(lambda x, y, c: x / (x - y))); S['l:isubx'] = ('zero', cw(lambda x, y, c: x - x * y)); S['l:assignx'] = ('zero', cw(lambda x, y, c: y - x))
    return S


KIND = dict(d='double', ld='long double', dld='double with long double', ldd='long double with double', df='double with float', fd='float with double', dk='double with compensated', kd='compensated with double',
            kk='compensated', l='lazy', av='AVX double')


def run():
    c = Check('P23', 'Vector algebra', 'every operator and function of the plain, mixed-precision, compensated, lazily evaluated and AVX vector, including aliased operands: the three components of the result and both operands '
              'afterwards against the componentwise definition', min_obl=800)
    ms = c.compile_many([(('vec.cpp',), {}), (('vec.cpp',), dict(defs=('AV',), flags=('-mavx',)))])
    S = specs()
    A = [inp('in[%d]' % i) for i in range(3)]; B = [inp('in[%d]' % i) for i in range(3, 6)]; C = inp('in[6]')
    jobs = [(m, f) for m in ms for f in m.funcs if re.match(r'(%s)_' % '|'.join(KIND), f) and not m.funcs[f].decl] if hasattr(next(iter(ms[0].funcs.values())), 'decl') else \
        [(m, f) for m in ms for f in m.funcs if re.match(r'(%s)_[a-z0-9]+$' % '|'.join(KIND), f)]

    def job(j):
        m, f = j
        k, op = f.split('_')
        sp = S.get('%s:%s' % (k, op), S.get(op))
        if sp is None: raise Broken('no specification for ' + f)
        nm = '%s vector, %s' % (KIND[k], op)
        R = c.run(m, f, 9)
        if not c.usable(R, 'operator', nm): return
        tol = mpf(10) ** -5 if k in ('df', 'fd') else mpf(10) ** -9
        r = [E(0)] * 3 if sp[0] == 'zero' else sp[0](A, B, C)
        a = A if sp[1] is None else [E(0)] * 3 if sp[1] == 'none' else sp[1](A, B, C)
        b = B if sp[1] != 'none' else [E(0)] * 3
        if op == 'iadd' and sp[0] == 'zero': pass
        for i in range(3):
            c.eq('result', '%s: component %d of the result' % (nm, i), c.out(R, i), r[i], tol=tol)
            c.eq('target', '%s: component %d of the left operand afterwards' % (nm, i), c.out(R, 3 + i), a[i], tol=tol)
            c.eq('target', '%s: component %d of the right operand afterwards' % (nm, i), c.out(R, 6 + i), b[i], tol=tol)
    c.parallel(jobs, job)
    c.true('coverage', 'every vector type has operators to analyse', {f.split('_')[0] for _, f in jobs} == set(KIND), 'types %s' % sorted({f.split('_')[0] for _, f in jobs}))
    return c.finish()
