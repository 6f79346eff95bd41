"""Every predefined method: its type, the types of its state, that it can be instantiated, and that nothing it runs narrows a value."""
import re, subprocess
from hx import *
SUF = [('', 'double', 'double'), ('_Plus', 'double_k', 'double'), ('_Ext', 'long double', 'long double'), ('_ExtPlus', 'long_double_k', 'long double')]
SYSTEM = dict(AR_CHAIN='hub::system::ARchainSystem', CHAIN='hub::system::ChainSystem', AR='hub::system::RegularizedSystem', PLAIN='hub::system::SimpleSystem')


def names():
    """(name, system, family, adaptive, suffix)"""
    for nm, sy in (('BS', 'PLAIN'), ('AR_BS', 'AR'), ('Chain_BS', 'CHAIN'), ('AR_Chain', 'AR_CHAIN')):
        for s in SUF: yield nm + s[0], sy, 'BS', True, s
    for fam in ('Sym2', 'Sym4', 'Sym6', 'Sym8', 'Sym10', 'Radau'):
        for nm, sy in ((fam, 'PLAIN'), ('AR_' + fam, 'AR'), ('Chain_' + fam, 'CHAIN'), ('AR_%s_Chain' % fam, 'AR_CHAIN')):
            for ad in (True, False):
                for s in SUF: yield ('' if ad else 'Const_') + nm + s[0], sy, fam, ad, s


def tree(t):
    """parse a demangled type into (head, [arguments])"""
    def node(i):
        j = i; depth = 0
        while j < len(t):
            ch = t[j]
            if depth == 0 and ch in '<,>': break
            depth += (ch == '(') - (ch == ')'); j += 1
        head = t[i:j].strip(); args = []
        if j < len(t) and t[j] == '<':
            j += 1
            while True:
                n, j = node(j); args.append(n)
                if t[j] == '>': j += 1; break
                j += 1
            while j < len(t) and t[j] in ' ': j += 1
            k = j
            while k < len(t) and t[k] not in '<,>': k += 1
            head += t[j:k]; j = k
            if j < len(t) and t[j] == '<':          # member template of a specialisation
                j += 1
                while True:
                    n, j = node(j); args.append(n)
                    if t[j] == '>': j += 1; break
                    j += 1
        return (head, args), j
    return node(0)[0]


def show(n): return n[0] + ('<%s>' % ', '.join(show(a) for a in n[1]) if n[1] else '')


def leaves(n):
    if not n[1]: yield n[0]
    for a in n[1]: yield from leaves(a)


PROBE = r'''
#include "spaceHub.hpp"
namespace wit {
template <int K, class... T> __attribute__((used, noinline)) void probe() {}
struct F : hub::force::NewtonianGrav {};
#define ACC(NAME, EXPR) \
template <class S, class = void> struct NAME##_t { using type = void; }; \
template <class S> struct NAME##_t<S, std::void_t<decltype(EXPR)>> { using type = std::decay_t<decltype(EXPR)>; };
ACC(pos, std::declval<S&>().pos()[0].x) ACC(vel, std::declval<S&>().vel()[0].x) ACC(time, std::declval<S&>().time()) ACC(cpos, std::declval<S&>().chain_pos()[0].x)
ACC(cvel, std::declval<S&>().chain_vel()[0].x) ACC(omega, std::declval<S&>().omega()) ACC(bind, std::declval<S&>().bindE())
template <int K, class M> void state() {
    using S = std::remove_reference_t<decltype(std::declval<M&>().particles())>; using R = std::remove_const_t<S>;
    probe<K, typename pos_t<R>::type, typename vel_t<R>::type, typename time_t<R>::type, typename cpos_t<R>::type, typename cvel_t<R>::type, typename omega_t<R>::type, typename bind_t<R>::type>();
}
}
'''
BODY = r'''
#include "spaceHub.hpp"
namespace wit {
using namespace hub;
template <class S> void go() { std::vector<typename S::Particle> v; S sim{0.0L, v}; typename S::RunArgs a; sim.run(a); }
}
'''
FORCES = [('PN', 'hub::force::Interactions<hub::force::NewtonianGrav, hub::force::PN1, hub::force::PN2, hub::force::PN2p5>', 'hub::particles::PointParticles'),
          ('Tidal', 'hub::force::Interactions<hub::force::NewtonianGrav, hub::force::Tidal>', 'hub::particles::TideParticles')]


def frames(path):
    """[(function, instruction line, target, [file:line(fn)...])] of every narrowing in a module"""
    loc, sub, fil, L, cur = {}, {}, {}, [], None
    with open(path) as fh:
        for l in fh:
            if l[0] == '!':
                m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+), .*scope: !(\d+)(?:, inlinedAt: !(\d+))?', l)
                if m: loc[m[1]] = (m[2], m[3], m[4]); continue
                m = re.match(r'!(\d+) = distinct !DISubprogram\(name: "([^"]*)".*?file: !(\d+)', l)
                if m: sub[m[1]] = (m[2], m[3]); continue
                m = re.match(r'!(\d+) = !DIFile\(filename: "([^"]*)"', l)
                if m: fil[m[1]] = m[2]; continue
                m = re.match(r'!(\d+) = distinct !DILexicalBlock\(scope: !(\d+)', l) or re.match(r'!(\d+) = !DILexicalBlockFile\(scope: !(\d+)', l)
                if m: sub[m[1]] = ('', m[2])
            elif l.startswith('define'): cur = re.search(r'@"?([^"(]+)', l)[1]; L.append(('def', cur, None, None))
            elif ' = fptrunc ' in l:
                m = re.search(r'fptrunc (\S+) .* to (\w+)', l); d = re.search(r'!dbg !(\d+)', l)
                L.append(('cut', cur, (m[1], m[2]), d and d[1]))
            elif ' = ' in l or 'call' in l or 'store' in l: L.append(('ins', None, None, None))
    out = []; nf = ni = 0
    for k, f, ty, d in L:
        if k == 'def': nf += 1
        else: ni += 1
        if k != 'cut': continue
        fr = []
        while d in loc and len(fr) < 12:
            ln, sc, up = loc[d]; nm = ''
            while sc in sub and sub[sc][0] == '': sc = sub[sc][1]
            nm, ff = sub.get(sc, ('?', '?')); fr.append((fil.get(ff, '?'), ln, nm)); d = up
        out.append((f, ty, fr))
    return out, nf, ni


def run():
    c = Check('P25', 'Predefined methods', 'every alias hub::methods::* is resolved by the type checker and its type tree compared with its name; every alias is instantiated; no instruction reachable from a method rounds a value to a narrower floating type outside the step-size heuristics', min_obl=2500)
    all_ = list(names())
    # ---- the types
    src = '%s/probe.cpp' % c.dir; k = 0; jobs = {}
    with open(src, 'w') as fh:
        fh.write(PROBE); body = []
        for s in SUF: body.append('wit::probe<%d, hub::%s>();' % (k, s[1]) if 'k' in s[1] else 'wit::probe<%d, %s>();' % (k, s[1])); jobs[k] = ('scalar', s); k += 1
        body.append('wit::probe<%d, hub::methods::DefaultMethod<>>();' % k); jobs[k] = ('default', '<>'); k += 1
        body.append('wit::probe<%d, hub::methods::DefaultMethod<hub::force::Interactions<wit::F>, hub::particles::TideParticles>>();' % k); jobs[k] = ('default', '<F, P>'); k += 1
        for a in all_:
            for form, args in (('<>', '<>'), ('<F, P>', '<hub::force::Interactions<wit::F>, hub::particles::TideParticles>')):
                body.append('wit::probe<%d, hub::methods::%s%s>();' % (k, a[0], args)); jobs[k] = ('type', a, form); k += 1
            body.append('wit::state<%d, hub::methods::%s<>>();' % (k, a[0])); jobs[k] = ('state', a); k += 1
        fh.write('void all() {\n%s\n}\n' % '\n'.join(body))
    r = subprocess.run(CXX + ['-O0', src, '-o', src[:-4] + '.ll'], capture_output=True, text=True)
    if r.returncode: raise Broken('the predefined methods cannot be named:\n' + r.stderr[:3000])
    sym = re.findall(r'^define [^@]*@"?([\w.$]+)', open(src[:-4] + '.ll').read(), re.M)
    dem = subprocess.run(['c++filt'], input='\n'.join(sym), capture_output=True, text=True).stdout.split('\n')
    got = {}
    for d in dem:
        m = re.match(r'void wit::probe<(\d+), (.*)>\(\)$', d)
        if m: got[int(m[1])] = tree('X<%s>' % m[2])[1]
    missing = [jobs[i] for i in jobs if i not in got]
    if missing: raise Broken('no type found for %s' % (missing[0],))
    scal = {jobs[i][1][0]: got[i][0] for i in jobs if jobs[i][0] == 'scalar'}
    FLOAT = {'float', 'double', 'long double', '__float128', '_Float16'}
    types = {}
    for i, j in jobs.items():
        if j[0] != 'type': continue
        nm, sy, fam, ad, (suf, _, width) = j[1]; what = 'methods::' + nm + j[2]; t = got[i][0]; S = scal[suf]
        types[nm, j[2]] = t
        if len(t[1]) < 2: c.undecided('type', what + ': is not a simulator of a system and an iterator: ' + show(t)); continue
        ps, it = t[1][0], t[1][1]
        c.true('type', what + ': particle system', ps[0] == SYSTEM[sy], 'it integrates a %s, its name announces %s' % (show(ps), SYSTEM[sy]))
        want = 'hub::particles::' + ('PointParticles' if j[2] == '<>' else 'TideParticles')
        tset = ('hub::Types', [S, ('hub::Vec3', [])])
        istype = lambda n, X: n[0] == 'hub::Types' and n[1] and n[1][0] == X and all(x == ('hub::Vec3', []) for x in n[1][1:])
        pt = ps[1][0] if ps[1] else ('', [])
        pp = pt if pt[0].endswith(want.split('::')[-1]) else None
        c.true('type', what + ': particles', pt[0] == want and pt[1] and istype(pt[1][0], S), 'its particles are %s, expected %s of %s' % (show(pt), want, show(S)))
        inter = 'hub::force::Interactions<hub::force::NewtonianGrav>' if j[2] == '<>' else 'hub::force::Interactions<wit::F>'
        c.true('type', what + ': interactions', len(ps[1]) > 1 and show(ps[1][1]) == inter, 'its interactions are %s' % (show(ps[1][1]) if len(ps[1]) > 1 else 'missing'))
        integ = it[1][0] if it[1] else ('', [])
        order = {'Sym2': 'Symplectic2nd', 'Sym4': 'Symplectic4th', 'Sym6': 'Symplectic6th', 'Sym8': 'Symplectic8th', 'Sym10': 'Symplectic10th', 'Radau': 'GaussRadau'}
        if fam == 'BS': okI = integ[0].startswith('hub::integrator::')
        else: okI = integ[0] == 'hub::integrator::' + order[fam]
        c.true('type', what + ': integrator', okI, 'it steps with %s' % show(integ))
        c.true('type', what + ': integrator scalar', bool(integ[1]) and istype(integ[1][0], S), 'its integrator works on %s, its name announces %s' % (show(integ), show(S)))
        wantit = 'hub::ode::ConstOdeIterator' if not ad else dict(BS='hub::ode::BulirschStoer', Radau='hub::ode::IAS15').get(fam, 'hub::ode::SequentOdeIterator')
        c.true('type', what + ': iterator', it[0] == wantit, 'it iterates with %s' % it[0])
        ctl = [a for a in it[1][1:]]
        if ad: c.true('type', what + ': adaptive step', not any('ConstStepController' in show(a) for a in ctl) and len(ctl) >= 2, 'its step control is %s' % [show(a) for a in ctl])
        bad = sorted({x for x in leaves(t) if x in FLOAT and x != width})
        c.true('type', what + ': one precision', not bad, 'parts of it compute in %s: %s' % (', '.join(bad), show(t)[:700]))
    for i, j in jobs.items():
        if j[0] == 'default':
            same = [n for (n, f), t in types.items() if f == j[1] and t == got[i][0]]
            c.true('type', 'methods::DefaultMethod%s: is a predefined method' % j[1], bool(same), 'it is %s' % show(got[i][0]))
            c.notes.append('DefaultMethod%s is %s' % (j[1], same))
        if j[0] == 'state':
            nm, sy, fam, ad, (suf, _, width) = j[1]; S = show(scal[suf])
            for lab, t in zip(('position', 'velocity', 'time', 'chain position', 'chain velocity', 'omega', 'binding energy'), got[i]):
                if show(t) == 'void': continue
                c.true('state', 'methods::%s: %s' % (nm, lab), show(t) == S, 'it is kept as %s, the name announces %s' % (show(t), S))
    # ---- instantiation and narrowing
    shards = []
    for grp in (('', '_Plus'), ('_Ext', '_ExtPlus')):
        L = [a for a in all_ if a[4][0] in grp]
        n = 8 if grp[0] else 8
        for q in range(n): shards.append((grp, ['hub::methods::%s<>' % a[0] for a in L[q::n]]))
        for nm, I, Pt in FORCES:
            shards.append((grp, ['hub::methods::%s%s<%s, %s>' % (b, s, I, Pt) for b in ('BS', 'AR_Chain', 'Sym4') for s in grp]))

    def one(q):
        grp, L = shards[q]; f = '%s/inst%d.cpp' % (c.dir, q)
        with open(f, 'w') as fh: fh.write(BODY + ''.join('template void wit::go<%s>();\n' % x for x in L))
        r = subprocess.run([x for x in CXX if x not in ('-Xclang', '-disable-llvm-passes')] + [f, '-o', f[:-4] + '.ll'], capture_output=True, text=True)
        if r.returncode: return q, r.stderr, None
        res = frames(f[:-4] + '.ll'); os.unlink(f[:-4] + '.ll'); return q, None, res
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, range(len(shards))))
    seen = set()
    for q, err, r in res:
        grp, L = shards[q]
        if err:
            m = re.search(r'([^\s:]+):(\d+):\d+: error: (.*)', err)
            inst = [x for x in L if x.split('::')[-1].split('<')[0] in err]
            own = m and m[1].startswith(REPO)
            for x in L: c.decided('instantiation')
            c.violation('instantiation', 'a predefined method does not compile', '%s: %s' % (m[0] if m else '?', err[:1200]), m and '%s:%s' % (m[1], m[2])); continue
        cuts, nf, ni = r; c.instr += ni
        for x in L: c.decided('instantiation'); c.decided('narrowing')
        c.funcs |= {(q, z) for z in range(nf)}
        for f, (frm, to), fr in cuts:
            if grp[0] == '' and frm != 'double': continue
            if any('/error-checker/' in a or '/step-controller/' in a for a, b, n in fr): continue
            own = [x for x in fr if x[0].startswith(REPO)] or fr
            at = own[0] if own else ('?', 0, f)
            if at in seen: continue
            seen.add(at)
            c.violation('narrowing', '%s rounds to %s' % (at[2], to), 'a value of type %s is rounded to %s on the way %s' % (frm, to, ' < '.join('%s:%s %s' % (a.split('/src/')[-1], b, n) for a, b, n in fr[:6])), '%s:%s' % (at[0], at[1]))
    return c.finish()
