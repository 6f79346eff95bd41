"""Check harness: compile driver translation units against /repo's current headers, run the value-graph pass, compare
value numbers, report."""
import os, sys, re, json, time, random, subprocess, tempfile, shutil, atexit, traceback, hashlib
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, vg, pit
from vg import T, P, mk, fc, UNDEF, DEAD, Undecided
from pit import *
from pit import mpf, default_gen

REPO = os.environ.get('SH_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = VERIF + '/evidence' if REPO == '/repo' else '/tmp/mut'
CXX = ['clang++', '-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-math-errno', '-ffp-contract=off', '-g1',
       '-S', '-emit-llvm', '-w', '-pthread', '-I', REPO + '/src', '-I', VERIF + '/drivers']


class Broken(Exception):
    """the analysis itself could not be carried out"""


class Run:
    pass


class Check:
    def __init__(s, pid, title, rule, level='other', assumptions=(), min_obl=1):
        s.pid = pid; s.title = title; s.rule = rule; s.level = level; s.assumptions = list(assumptions)
        s.min_obl = min_obl
        s.tier = os.environ.get('VERIF_TIER', 'quick'); s.seed = int(os.environ.get('VERIF_SEED', '1'))
        s.thorough = s.tier == 'thorough'
        s.rng = random.Random(s.seed * 1000003 + int(hashlib.md5(pid.encode()).hexdigest()[:6], 16))
        s.t0 = time.time()
        s.aims = {}; s.naim = 0; s.nhit = 0
        s.viol = []; s.known_hit = []; s.undec = []
        s.obl = {}            # kind -> [decided, undecided]
        s.samples = []; s.files = {}; s.funcs = set(); s.instr = 0; s.how = {}
        s.notes = []; s.conds = {}
        s.known = load_known(pid)
        s.dir = tempfile.mkdtemp(prefix='shv-', dir='/tmp')
        atexit.register(shutil.rmtree, s.dir, True)
        s.mods = {}

    # ------------------------------------------------------------ compiling
    def compile(s, src, defs=(), passes='function(sroa,simplifycfg)', flags=(), opt=True):
        key = (src, tuple(defs), passes, tuple(flags))
        if key in s.mods: return s.mods[key]
        path = src if os.path.isabs(src) else os.path.join(VERIF, 'drivers', src)
        base = os.path.join(s.dir, 'm%d_%s' % (len(s.mods), hashlib.md5(repr(key).encode()).hexdigest()[:8]))
        cmd = CXX + list(flags) + ['-D' + d for d in defs] + [path, '-o', base + '.ll']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise Broken('driver %s does not compile against the current tree:\n%s' % (src, r.stderr[:3000]))
        if opt:
            r = subprocess.run(['opt', '-passes=' + passes, '-S', base + '.ll', '-o', base + 's.ll'], capture_output=True, text=True)
            if r.returncode: raise Broken('opt: ' + r.stderr[:2000])
            os.unlink(base + '.ll')
            base += 's'
        m = ir.Module(base + '.ll')
        s.mods[key] = m
        return m

    def compile_many(s, jobs):
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda j: s.compile(*j[0], **j[1]), jobs))

    # ------------------------------------------------------------ running the pass
    def run(s, m, fn, nout=64, fixed=None, intercepts=(), opaque=None, args=None, **kw):
        """value graph of driver function fn(double const* in, double* out)"""
        if fn not in m.funcs: raise Broken('driver entry %s is missing' % fn)
        g = vg.VG(m, list(intercepts), opaque, **kw); st = vg.State()
        o = g.new_obj('out', 8 * nout, 'out')
        fixed = fixed or {}
        def lazy(off, sz, t):
            k = off // 8 if off % 8 == 0 else None
            if k in fixed:
                x = fixed[k]
                return x.t if isinstance(x, E) else x if isinstance(x, T) else vg.fc(x) if (t == 'f' or t is None) else x
            return mk('in', 'in[%s]' % (k if k is not None else 'b%d' % off), 'f' if t is None else t)
        i = g.input_obj('in', lazy=lazy)
        R = Run(); R.fixed = fixed or {}; R.g = g; R.m = m; R.fn = fn; R.o = o; R.und = None; R.dead = False; R.cells = {}
        vg.CUR_DBG[0] = None
        try:
            r = g.call_fn(fn, [P(i, 0), P(o, 0)] if args is None else args(g, st, i, o), st)
        except Undecided as e:
            R.und = '%s [in %s]' % (e, ' > '.join(g.dem.get(x, x)[:80] for x in R_stack(e)))
            r = None
        except (AttributeError, KeyError, TypeError, IndexError, ValueError, AssertionError, RecursionError, OverflowError) as e:
            R.und = 'unsupported construct: %r' % (e,)
            if os.environ.get('SH_DEBUG'): traceback.print_exc()
            r = None
        s.instr += g.steps
        s.funcs |= {g.dem.get(x, x) for x in g.nfuncs}
        if r is not None:
            if r[0] is DEAD: R.dead = True; R.st = st
            else: R.ret = r[0]; R.st = r[1]; R.cells = R.st.mem.get(o, {})
        return R

    def out(s, R, k):
        c = R.cells.get(8 * k)
        return UNDEF if c is None else vg.tofloat(c[1]) if c[0] == 8 else c[1]

    def outi(s, R, k):
        c = R.cells.get(8 * k)
        return UNDEF if c is None else c[1]

    # ------------------------------------------------------------ running obligations in parallel
    def parallel(s, jobs, fn, workers=8):
        """fn(job) for every job, in forked workers; obligations, reports and statistics are merged in job order"""
        import pickle
        jobs = list(jobs); nw = max(1, min(workers, len(jobs)))
        if nw == 1:
            for j in jobs: fn(j)
            return
        keep = ('viol', 'known_hit', 'undec', 'obl', 'samples', 'funcs', 'instr', 'how', 'notes')
        kids = []
        for w in range(nw):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    out = []
                    for k in range(w, len(jobs), nw):
                        s.viol = []; s.known_hit = []; s.undec = []; s.obl = {}; s.samples = []; s.funcs = set(); s.instr = 0; s.how = {}; s.notes = []
                        s.rng.seed(hash((s.seed, k)))
                        err = None
                        try: fn(jobs[k])
                        except BaseException: err = traceback.format_exc()
                        out.append((k, {a: getattr(s, a) for a in keep}, err))
                    with os.fdopen(wr, 'wb') as fh: pickle.dump(out, fh)
                finally: os._exit(0)
            os.close(wr); kids.append((pid, r))
        res = []
        for pid, r in kids:
            with os.fdopen(r, 'rb') as fh: data = fh.read()
            os.waitpid(pid, 0)
            if not data: raise Broken('a worker process ended without a result')
            res += pickle.loads(data)
        for k, d, err in sorted(res, key=lambda x: x[0]):
            if err: raise Broken('job %r: %s' % (jobs[k], err))
            for a in ('viol', 'known_hit', 'undec', 'notes'): getattr(s, a).extend(d[a])
            for smp in d['samples']:
                if len(s.samples) < 12 and sum(x['kind'] == smp['kind'] for x in s.samples) < 3: s.samples.append(smp)
            for kk, (x, y) in d['obl'].items():
                o = s.obl.setdefault(kk, [0, 0]); o[0] += x; o[1] += y
            for kk, x in d['how'].items(): s.how[kk] = s.how.get(kk, 0) + x
            s.funcs |= d['funcs']; s.instr += d['instr']

    # ------------------------------------------------------------ obligations
    def decided(s, kind, n=1): s.obl.setdefault(kind, [0, 0])[0] += n

    def undecided(s, kind, why, n=1):
        s.obl.setdefault(kind, [0, 0])[1] += n
        s.undec.append('%s: %s' % (kind, why))

    def usable(s, R, kind, what, loc=None, allow_oob=False):
        """False when the graph could not be built; reports runs that cannot complete or leave their arrays"""
        if R.und and not (R.g.oob and not allow_oob): s.undecided(kind, '%s: %s' % (what, R.und)); return False
        if R.dead:
            s.violation(kind, what + ' never completes', 'every path of %s ends in a failure exit %s' % (R.fn, [a[1] for a in R.st.aborts][:3]))
            return False
        if R.g.oob and not allow_oob:
            bad = [x for x in R.g.oob if s.feasible(x[6])]
            if not bad: s.undecided(kind, '%s: access outside an array under a condition no draw satisfies' % what); return False
            l, on, off, sz, wh, cs, pc = bad[0]
            s.violation(kind, what + ' leaves its array', '%s (%s bytes at %s of %s) in %s' % (wh, sz, off, on, ' > '.join(R.g.dem.get(x, x)[:90] for x in cs)), l)
            return False
        s.curR = R
        return True

    aiming = True

    def aimed(s, kind, what, a, b, envs, gen, tol, scale):
        """the comparison again on states aimed at the sides of branches that no draw has taken"""
        R = getattr(s, 'curR', None)
        if s.aims.get('run') is not R: s.aims = {'run': R}
        who = None if gen is None else (gen.__code__, tuple(repr(z.cell_contents)[:300] for z in gen.__closure__ or () if not callable(z.cell_contents)))
        todo = []
        for c, way in pit.onesided(envs)[:12]:
            k = (c, way, who)
            if k not in s.aims:
                s.aims[k] = []
                for _ in range(3 if s.thorough else 1):
                    e = pit.aim(c, way, envs, gen, s.rng)
                    s.naim += 1
                    if e is None: break
                    s.nhit += 1; s.aims[k].append(e)
            todo += [(c, e) for e in s.aims[k]]
        if tol > mpf(10)**-9: tol = mpf(10)**-3             # (rounded tables in the code: extreme states magnify them)
        for c, e in todo:
            try: x = e.ev(a); y = e.ev(b)
            except (ArithmeticError, TypeError, ValueError, AttributeError): continue
            if isinstance(y, mpf) and not pit.mpmath.isfinite(y): continue
            if scale is not None and isinstance(x, mpf) and isinstance(y, mpf) and abs(x - y) <= tol * abs(scale): continue
            if pit.close(x, y, tol): continue
            n = lambda v: pit.mpmath.nstr(v, 8) if isinstance(v, mpf) else v
            s.violation(kind, what, 'on the side of the branch on %s that few states take: code gives %s, rule gives %s at %s' % (vg.show(c, 3)[:160], n(x), n(y), {k: n(v) for k, v in sorted(e.vals.items(), key=lambda kv: nat(kv[0]))[:40]}), tloc(a))
            break

    def unended(s, kind, what, envs, n, gen):
        """no failure exit of the run the value comes from is reached with the states the value was compared on"""
        R = getattr(s, 'curR', None)
        if R is None or not R.st.aborts: return
        seen = R.__dict__.setdefault('ended', set())
        while len(envs) < n: envs.append(pit.Env(s.rng, gen))
        envs = envs[:n]
        for pc, why in R.st.aborts:
            if not pc or (id(pc), str(why)) in seen: continue
            for e in envs:
                try: hit = all(bool(e.ev(c)) == v for c, v in pc)
                except (ArithmeticError, TypeError, ValueError, AttributeError, KeyError): continue
                if hit:
                    seen.add((id(pc), str(why)))
                    s.violation(kind, what + ': the program is ended', '%s is reached at %s' % (why, {k: (pit.mpmath.nstr(x, 8) if isinstance(x, mpf) else x) for k, x in sorted(e.vals.items(), key=lambda kv: nat(kv[0]))[:40]}))
                    break

    def feasible(s, pc, gen=None, n=200):
        """some draw of the leaves satisfies the path condition"""
        if not pc: return True
        for _ in range(n):
            e = pit.Env(s.rng, gen)
            try:
                if all(bool(e.ev(c)) == v for c, v in pc): return True
            except (ArithmeticError, TypeError, ValueError): pass
        return False

    def eq(s, kind, what, a, spec, R=None, gen=None, n=None, tol=None, scale=None, need=2, expl='', envs=None):
        """obligation: the value number a equals the specification term"""
        b = spec.t if isinstance(spec, E) else spec
        if isinstance(a, E): a = a.t
        n = n or (24 if s.thorough else 6)
        if envs is None: envs = []
        try:
            v = pit.equal(a, b, s.rng, gen, n=n, tol=mpf(tol) if tol else mpf(10)**-9, need=need, scale=scale, envs=envs)
        except (ArithmeticError, AttributeError, TypeError, ValueError, RecursionError) as e:
            s.undecided(kind, '%s: %r' % (what, e)); return None
        if v.ok is None: s.undecided(kind, what + ': no draw in the domain of definition'); return None
        s.decided(kind)
        s.how[v.how.split(' over')[0]] = s.how.get(v.how.split(' over')[0], 0) + 1
        if v.ok:
            s.unended(kind, what, envs, n, gen)
            if isinstance(a, T) and a is not b and s.aiming: s.aimed(kind, what, a, b, envs, gen, mpf(tol) if tol else mpf(10)**-9, scale)
            if len(s.samples) < 12 and (not s.samples or s.samples[-1]['kind'] != kind):
                s.samples.append({'kind': kind, 'obligation': what, 'value_number': vg.show(a, 5)[:300] if isinstance(a, T) else str(a), 'decided_by': v.how})
            return True
        loc = tloc(a)
        msg = []
        if expl: msg.append(expl)
        if v.witness is not None:
            msg.append('code value %s, specified %s at %s' % (pit.mpmath.nstr(v.a, 15) if isinstance(v.a, mpf) else v.a, pit.mpmath.nstr(v.b, 15) if isinstance(v.b, mpf) else v.b,
                       {k: (pit.mpmath.nstr(x, 8) if isinstance(x, mpf) else x) for k, x in sorted(v.witness.items(), key=lambda kv: nat(kv[0]))[:40]}))
        else: msg.append(v.how)
        if isinstance(a, T): msg.append('value number: ' + vg.show(a, 6)[:600])
        s.violation(kind, what, '; '.join(msg), loc, more=tlocs(a))
        return False

    def true(s, kind, what, cond, msg='', loc=None):
        s.decided(kind)
        if not cond: s.violation(kind, what, msg, loc)
        return bool(cond)

    def violation(s, kind, what, msg, loc=None, more=()):
        msg = msg or ''
        key = re.sub(r'\s+', '_', '%s:%s' % (kind, what))
        for kk, text in s.known:
            if kk == key or (kk.endswith('*') and key.startswith(kk[:-1])):
                s.known_hit.append((kk, text, what, msg, loc)); return
        s.viol.append(dict(kind=kind, what=what, msg=msg, loc=floc(loc), key=key, more=list(more)[:8]))

    def note(s, t): s.notes.append(t)

    # ------------------------------------------------------------ end
    def finish(s, extra=None):
        dec = sum(a for a, b in s.obl.values()); und = sum(b for a, b in s.obl.values())
        cov = {
            'explanation': s.rule,
            'obligations_decided': dec, 'obligations_undecided': und,
            'obligations_by_kind': {k: {'decided': a, 'undecided': b} for k, (a, b) in sorted(s.obl.items())},
            'decided_how': s.how,
            'instructions_transferred': s.instr,
            'functions_analysed': len(s.funcs),
            'repo_functions': sorted({f.split('(')[0][-110:] for f in s.funcs if 'hub::' in f})[:60],
            'translation_units': len(s.mods),
            'samples': s.samples[:12],
            'undecided': s.undec[:20], 'notes': s.notes,
            'known_findings': sorted({k[0] for k in s.known_hit}),
        }
        if s.level == 'proof':
            cov.update(obligations=dec + und, discharged=dec, checker_cmd='python3-vt /verif/check.py ' + s.pid, trusted_base=['clang 18 front end', 'engine/vg.py'])
        if extra: cov.update(extra)
        ev = dict(property=s.pid, tier=s.tier, seed=s.seed, level=s.level, coverage=cov, assumptions=s.assumptions,
                  wall_s=round(time.time() - s.t0, 2), violations=len(s.viol))
        os.makedirs(EVID, exist_ok=True)
        with open('%s/%s.json' % (EVID, s.pid), 'w') as fh: json.dump(ev, fh, indent=1, default=str)
        seen = set()
        for kk, text, what, msg, loc in s.known_hit:
            if kk in seen: continue
            seen.add(kk); print('KNOWN-FINDING: property=%s %s' % (s.pid, text))
        print('%s %s: %d obligations decided, %d undecided, %d functions, %d instructions, %.1fs' % (s.pid, s.title, dec, und, len(s.funcs), s.instr, time.time() - s.t0))
        for u in s.undec[:10]: print('  undecided: ' + u[:300])
        if s.viol:
            rp = '%s/%s.report.txt' % (EVID, s.pid)
            with open(rp, 'w') as fh:
                fh.write('property %s: %s\nre-run: cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3-vt check.py %s\n\n' % (s.pid, s.title, s.seed, s.tier, s.pid))
                for v in s.viol:
                    fh.write('[%s] %s\n  at %s\n  %s\n' % (v['kind'], v['what'], v['loc'], v['msg']))
                    for l in v['more']: fh.write('  uses %s\n' % (l,))
                    fh.write('  key: %s\n\n' % v['key'])
            for v in s.viol[:12]: print('  [%s] %s at %s: %s' % (v['kind'], v['what'], v['loc'], v['msg'][:700]))
            print('VIOLATION property=%s replay=%s' % (s.pid, rp)); return 1
        if dec < s.min_obl or und > dec:
            print('ANALYSIS-BROKEN %s: %d obligations decided (expected at least %d), %d undecided' % (s.pid, dec, s.min_obl, und)); return 2
        return 0


def R_stack(e):
    return getattr(e, 'stack', [])[-4:]


def nat(k): return [int(x) if x.isdigit() else x for x in re.split(r'(\d+)', str(k))]


def tloc(t):
    if isinstance(t, T) and t.dbg and t.dbg[0] is not None and t.dbg[1] is not None: return floc(t.dbg[0].loc(t.dbg[1]))
    return None


def floc(l):
    if l is None: return None
    return str(l).replace(REPO + '/', '') if isinstance(l, str) else '%s:%s' % (str(l[0]).replace(REPO + '/', ''), l[1]) if isinstance(l, tuple) else l


def tlocs(t, n=8):
    out = []; seen = set(); w = [t]
    while w and len(out) < n:
        x = w.pop(0)
        if not isinstance(x, T) or x in seen: continue
        seen.add(x); l = tloc(x)
        if l and l not in out: out.append(l)
        w.extend(x.args)
    return out


def subst(t, name, e):
    memo = {}
    def go(x):
        if not isinstance(x, T): return x
        r = memo.get(x)
        if r is None:
            if x.op == 'in' and x.args[0] == name: r = e.t
            else:
                a = tuple(go(y) for y in x.args)
                r = x if a == x.args else mk(x.op, *a)
            memo[x] = r
        return r
    return go(t)


def load_known(pid):
    out = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out


def main(fn):
    try:
        rc = vg.run_big_stack(fn)
    except Broken as e:
        print('ANALYSIS-BROKEN: %s' % e); rc = 2
    except Exception:
        traceback.print_exc(); print('ANALYSIS-BROKEN'); rc = 2
    sys.stdout.flush(); sys.exit(rc)
