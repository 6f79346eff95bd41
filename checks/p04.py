from hx import *
LISTS = ['_', 'd', 's', 'dd', 'ds', 'sd', 'ss', 'ddd', 'dds', 'dsd', 'dss', 'sdd', 'sds', 'ssd', 'sss']


def uf(i, k, dep, id):
    b = 2 + 7 * i
    x = lambda q: inp('in[%d]' % (b + q)).t
    a = [fc(id), fc(k), x(0), inp('in[1]').t, x(1), x(2), x(3)]
    if dep: a += [x(4), x(5), x(6)]
    return E(mk('uf:fd' if dep else 'uf:fi', *a))


def run():
    c = Check('P04', 'Composed interactions', 'forces are uninterpreted additive functions of mass, time, position and velocity; the value number of each output of '
              'Interactions::eval_* equals the sum of the functions the list prescribes, each once, whatever the output held before', min_obl=200)
    m = c.compile('interactions.cpp')
    for n in ((1, 2, 3) if c.thorough else (2,)):
        for L in LISTS:
            fs = [] if L == '_' else [(k + 1, ch == 'd') for k, ch in enumerate(L)]
            dep = [f for f in fs if f[1]]; ind = [f for f in fs if not f[1]]
            jobs = [('acc', [(0, False)] + fs), ('newt', [(0, False)])]
            if fs: jobs.append(('ext', fs))
            if dep: jobs.append(('dep', dep))
            if ind: jobs.append(('ind', ind))
            for w, want in jobs:
                R = c.run(m, '%s_%s' % (w, L), 16, {0: n})
                nm = 'eval_%s forces=N%s n=%d' % (dict(acc='acc', newt='newtonian_acc', ext='extra_acc', dep='extra_vel_dep_acc', ind='extra_vel_indep_acc')[w], '' if L == '_' else L, n)
                if not c.usable(R, 'compose', nm): continue
                for i in range(n):
                    for k in range(3):
                        sp = E(0)
                        for id, d in want: sp = sp + uf(i, k, d, id)
                        c.eq('compose', '%s body %d %s' % (nm, i, 'xyz'[k]), c.out(R, 3 * i + k), sp)
            R = c.run(m, 'meta_' + L, 16, {0: n})
            nm = 'InteractionData forces=N%s n=%d' % ('' if L == '_' else L, n)
            if c.usable(R, 'storage', nm):
                c.eq('storage', nm + ' ext_vel_dep', c.out(R, 0), E(int(bool(dep))))
                c.eq('storage', nm + ' ext_vel_indep', c.out(R, 1), E(int(bool(ind))))
                for k, w in ((2, 'acc'), (3, 'newtonian_acc'), (4, 'tot_vel_indep_acc')) + (((5, 'ext_vel_indep_acc'),) if ind else ()) + (((6, 'ext_vel_dep_acc'),) if dep else ()):
                    c.eq('storage', nm + ' size of ' + w, c.out(R, k), E(n))
    return c.finish()
