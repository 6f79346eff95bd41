import subprocess
from hx import *
OPS = ['put_tuple', 'put_value', 'put_row', 'put_string', 'get_value', 'get_row', 'do_flush', 'do_eof', 'do_exec', 'do_value']
LABEL = dict(put_tuple='writing a tuple', put_value='writing a number', put_row='writing a user type', put_string='writing a string', get_value='reading a number', get_row='reading a user type', do_flush='flushing', do_eof='testing for the end', do_exec='executing a callback', do_value='executing a callback with a result')
FORM = dict(h='twice on one handle', c='on a handle and its copy', a='on a handle and one assigned from it', d='on two files', m='on a copy and a handle moved from the original')


def locks(c):
    m = c.compile('cfile.cpp')
    S = {}

    def lock(g, st, a, rt, n):
        v = g.load(st, a[0], ir.int_t(32))
        k = (a[0].obj, a[0].off); S['mutex'][k] = a[0]
        if v == 1: S['bad'].append(('relocked', g.rloc()))
        elif v != 0: raise Undecided('lock of a mutex in an unknown state')
        g.store(st, a[0], 1, 4); return 0

    def unlock(g, st, a, rt, n):
        v = g.load(st, a[0], ir.int_t(32))
        if v == 0: S['bad'].append(('unlocked twice', g.rloc()))
        elif v != 1: raise Undecided('release of a mutex in an unknown state')
        g.store(st, a[0], 0, 4); return 0

    def ctor(g, st, a, rt, n):
        p = a[0]; S['streams'][(p.obj, p.off)] = len(S['streams'])
        for off, v in ((0, 264), (16, 248)):
            vt = g.new_obj('vtable', None, 'input', lambda o, sz, t, v=v: v)
            g.store(st, P(p.obj, p.off + off), P(vt, 64), 8)
        return None

    def owner(p):
        if not isinstance(p, P) or not isinstance(p.off, int): return None
        for (o, off), k in S['streams'].items():
            if o is p.obj and off <= p.off < off + 528: return k
        return None

    def io(g, st, a, rt, n):
        d = g.dem.get(n, n)
        for x in a:
            k = owner(x)
            if k is None: continue
            held = frozenset(i for i, (mk_, p) in enumerate(S['mutex'].items()) if g.load(st, p, ir.int_t(32)) == 1)
            S['io'].append((k, held, d.split('(')[0][:80], g.rloc()))
        if re.search(r'::~?basic_\w+\(', d): return None
        if rt.k == 'ptr': return next((x for x in a if owner(x) is not None), a[0])
        if rt.k == 'void': return None
        S['n'] += 1
        return g.fresh('io#%d' % S['n'], rt)
    nothing = lambda g, st, a, rt, n: None
    icp = [(r'^pthread_mutex_lock$', lock), (r'^pthread_mutex_unlock$', unlock), (r'^std::basic_fstream<.*>::basic_fstream\(char const\*', ctor), (r'^std::basic_fstream<.*>::basic_fstream\(std::', ctor),
           (r'^std::basic_fstream<.*>::is_open\(\)', lambda g, st, a, rt, n: 1), (r'_M_dispose\(\)|_M_destroy\(\)|^void std::_Destroy<', nothing), (r'^std::basic_fstream<.*>::~basic_fstream', nothing),
           (r'^ev_func$', io), (r'^operator(?:<<|>>)\(std::', io), (r'^std::(?:basic_(?:i|o|io)?f?stream<.*>|basic_ios<.*>|ios_base|ios|[io]stream|iostream|fstream|basic_filebuf<.*>|basic_streambuf<.*>)::', io),
           (r'^(?:bool |void )?std::(?:basic_[a-z]*(?:stream|ios)<[^(]*|[io]stream)& std::|^std::basic_[a-z]*stream<[^(]*& std::', io)]
    for op in OPS:
        for fm in 'hcadm':
            nm = '%s %s' % (LABEL[op], FORM[fm])
            S.update(mutex={}, streams={}, io=[], bad=[], n=0)
            R = c.run(m, '%s_%s' % (op, fm), 1, {}, intercepts=icp, max_steps=2000000)
            if not c.usable(R, 'lock', nm): continue
            for b, l in S['bad']: c.violation('balance', nm, 'the mutex is %s' % b, l)
            c.decided('balance')
            left = [p for p in S['mutex'].values() if R.g.load(R.st, p, ir.int_t(32)) != 0]
            c.true('balance', nm + ': released at the end', not left, 'a mutex is still held when the operation has returned')
            ks = {k for k, *_ in S['io']}
            c.true('stream', nm, len(ks) == (2 if fm == 'd' else 1) and len(S['io']) >= 2, '%d streams are used with %d accesses' % (len(ks), len(S['io'])))
            for k in ks:
                acc = [x for x in S['io'] if x[0] == k]
                com = frozenset.intersection(*[x[1] for x in acc])
                bare = next((x for x in acc if not x[1]), acc[0])
                c.true('lock', nm, com, 'no lock is common to all accesses of the stream (%d accesses; %s is made with %d locks held)' % (len(acc), bare[2], len(bare[1])), bare[3])
            c.samples.append(dict(kind='lock', obligation=nm, value_number='accesses: ' + ', '.join(sorted({x[2] for x in S['io']}))[:200], decided_by='lockset')) if fm == 'c' and len(c.samples) < 8 else None


def unwinding(c):
    """lock balance over every path of the optimised code, the exceptional ones included"""
    src = os.path.join(VERIF, 'drivers', 'cfile.cpp'); base = c.dir + '/unw'
    r = subprocess.run(CXX + [src, '-o', base + '0.ll'], capture_output=True, text=True)
    if r.returncode: raise Broken('cfile.cpp: ' + r.stderr[:1000])
    t = open(base + '0.ll').read()
    sub = lambda kind: lambda mm: '%s = add i32 0, 0\n  call void @ev_%s(%s) nounwind' % (mm.group(1), kind, mm.group(2))
    for kind in ('lock', 'unlock'):
        t = re.sub(r'(%%[\w.]+) = (?:tail )?call (?:noundef )?i32 @pthread_mutex_%s\((ptr[^()]*(?:\([^()]*\))?[^()]*)\)' % kind, sub(kind), t)
    t += '\ndeclare void @ev_lock(ptr) nounwind\ndeclare void @ev_unlock(ptr) nounwind\n'
    open(base + '1.ll', 'w').write(t)
    keep = ','.join(OPS)
    r = subprocess.run(['opt', '-passes=internalize,default<O2>,strip-dead-prototypes', '-internalize-public-api-list=' + keep, '-inline-threshold=100000', '-S', base + '1.ll', '-o', base + '2.ll'], capture_output=True, text=True)
    if r.returncode: raise Broken('opt: ' + r.stderr[:1500])
    nounw = set(); attrs = {}
    txt = open(base + '2.ll').read()
    for mm in re.finditer(r'^attributes (#\d+) = \{([^}]*)\}', txt, re.M): attrs[mm.group(1)] = mm.group(2)
    quiet = lambda s: 'nounwind' in s or any('nounwind' in attrs.get(x, '') for x in re.findall(r'#\d+', s))
    bodies = {}
    for mm in re.finditer(r'^define ([^\n]*?)@("[^"]*"|[\w$.]+)\(([^\n]*)\{\n(.*?)^\}', txt, re.M | re.S): bodies[mm.group(2)] = (mm.group(3), mm.group(4))
    for mm in re.finditer(r'^declare [^\n]*?@("[^"]*"|[\w$.]+)\(([^\n]*)$', txt, re.M):
        if quiet(mm.group(2)): nounw.add(mm.group(1))
    for n, (h, _) in bodies.items():
        if quiet(h): nounw.add(n)
    dem = dict(zip(bodies, subprocess.run(['c++filt'], input='\n'.join(x.strip('"') for x in bodies), capture_output=True, text=True).stdout.split('\n')))
    with_lock = {n for n, (_, b) in bodies.items() if '@ev_lock' in b or '@ev_unlock' in b}
    total = 0
    summ = {}

    def analyse(n, stack=()):
        """net number of locks taken on return (None: undecided); reports leaks"""
        nonlocal total
        if n in summ: return summ[n]
        if n in stack or n not in bodies: return 0
        blocks = {}; cur = None; order = []
        for ln in bodies[n][1].split('\n'):
            s = ln.strip()
            if not s or s.startswith(';'): continue
            mm = re.match(r'^("[^"]*"|[\w$.-]+):', ln)
            if mm: cur = mm.group(1).strip('"'); blocks[cur] = []; order.append(cur); continue
            if cur is None: cur = '0'; blocks[cur] = []; order.append(cur)
            if blocks[cur] and (blocks[cur][-1].rstrip().endswith(('to', '[')) or re.match(r'^(?:to label|catch|cleanup|filter|\]|i\d+ -?\d+, label)', s)): blocks[cur][-1] += ' ' + s
            else: blocks[cur].append(s)
        out = set(); name = dem.get(n, n)[:100]; what = LABEL.get(n, name)
        # a state: locks held, and the flags known to be constant on this path
        seen = set(); work = [(order[0], None, 0, ())]; steps = 0

        def val(x, env):
            x = x.strip()
            if re.match(r'^-?\d+$', x): return int(x)
            return {'true': 1, 'false': 0, 'null': 0}.get(x, env.get(x))

        def flags(s, prev, env):
            """constant flags through phi, comparison and bit operations"""
            mm = re.match(r'^(%[\w.]+) = (\w+) (.*)$', s)
            if not mm: return
            d, op, rest = mm.groups(); v = None
            if op == 'phi':
                for x, l in re.findall(r'\[ ([^,\]]+), %("[^"]*"|[\w$.-]+) \]', rest):
                    if l.strip('"') == prev: v = val(x, env)
            elif op == 'icmp':
                q = re.match(r'^(eq|ne) \S+ ([^,]+), (\S+?)(?:,|$)', rest)
                if q:
                    x, y = val(q.group(2), env), val(q.group(3), env)
                    if x is not None and y is not None: v = int((x == y) == (q.group(1) == 'eq'))
            elif op in ('trunc', 'zext', 'freeze', 'sext'):
                q = re.match(r'^(?:nuw |nsw |nneg )*(\S+) (\S+?)(?: to (\S+?))?(?:,|$)', rest)
                if q:
                    v = val(q.group(2), env)
                    if v is not None and q.group(3) == 'i1': v &= 1
            elif op in ('xor', 'and', 'or'):
                q = re.match(r'^(?:disjoint )?\S+ ([^,]+), (\S+?)(?:,|$)', rest)
                if q:
                    x, y = val(q.group(1), env), val(q.group(2), env)
                    if x is not None and y is not None: v = {'xor': x ^ y, 'and': x & y, 'or': x | y}[op] & 0xff
            env.pop(d, None)
            if v is not None: env[d] = v

        def go(b, prev, h, env):
            k = (b.strip('"'), prev, h, tuple(sorted(env.items())))
            if k not in seen: seen.add(k); work.append(k)
        while work:
            steps += 1
            if steps > 20000: c.undecided('unwind', what + ': too many paths'); break
            b, prev, h, envt = work.pop(); env0 = dict(envt); env = dict(envt)
            for s in blocks[b]:
                if re.match(r'^%[\w.]+ = phi ', s):
                    e2 = dict(env0); flags(s, prev, e2); d = s.split(' ')[0]
                    env.pop(d, None)
                    if d in e2: env[d] = e2[d]
                    continue
                flags(s, prev, env)
                isinv = ' invoke ' in ' ' + s
                iscall = isinv or re.search(r'(?:^|= |tail |musttail |notail )call ', s)
                f = None; before = h
                if iscall:
                    cm = re.search(r'(?:call|invoke) [^@%]*?@("[^"]*"|[\w$.]+)\(', s)
                    f = cm.group(1) if cm else None
                    if f in ('ev_lock', 'ev_unlock'):
                        q = re.search(r'(%[\w.]+)\)', s)
                        if q: env[q.group(1)] = 1       # a mutex that is locked exists: its address is not null
                    if f == 'ev_lock': h += 1; total += 1; continue
                    if f == 'ev_unlock': h -= 1; total += 1; continue
                    if f and f.startswith('llvm.'): continue
                    if f in bodies: h += analyse(f, stack + (n,)) or 0
                    if not isinv and before > 0 and f not in nounw and not quiet(s.rsplit(')', 1)[-1]):
                        c.violation('unwind', what, 'the lock stays held when %s throws: no clean-up between it and the caller' % (subprocess.run(['c++filt', f or '?'], capture_output=True, text=True).stdout.strip()[:90]))
                    c.decided('unwind')
                if isinv:
                    mm = re.search(r'to label %("[^"]*"|[\w$.-]+) unwind label %("[^"]*"|[\w$.-]+)', s)
                    go(mm.group(1), b, h, env); go(mm.group(2), b, before, env); break
                if s.startswith('br '):
                    ls = re.findall(r'label %("[^"]*"|[\w$.-]+)', s)
                    q = re.match(r'^br i1 ([^,]+),', s)
                    v = val(q.group(1), env) if q else None
                    for i, l in enumerate(ls):
                        if v is None or v == 1 - i: go(l, b, h, env)
                    break
                if s.startswith('switch '):
                    for l in re.findall(r'label %("[^"]*"|[\w$.-]+)', s): go(l, b, h, env)
                    break
                if re.match(r'^ret\b', s): c.decided('unwind'); out.add(h); break
                if s.startswith('resume '):
                    c.true('unwind', what, h == 0 or n not in OPS, 'an exception leaves the operation with the lock held')
                    break
        if len(out) > 1: c.violation('unwind', what, 'it returns holding %s locks, depending on the path' % ' or '.join(map(str, sorted(out))))
        out = max(out) if out else 0
        summ[n] = out or 0
        return summ[n]
    for op in OPS:
        if op not in bodies: c.undecided('unwind', 'entry %s vanished' % op); continue
        r = analyse(op)
        c.true('unwind', LABEL[op], r == 0, 'returns with %d locks held' % (r or 0))
    if total < 2 * len(OPS): c.undecided('unwind', 'only %d lock operations found' % total)
    c.note('%d lock operations on %d functions of the optimised code' % (total, len(with_lock)))


GEN = dict(uni='uniform', lg='logarithmic', pw='power law', nrm='normal', nrm0='normal without arguments', nrm1='normal of a mean', tn='truncated normal', tn0='truncated normal of mean 0 and spread 1', mx='Maxwellian', tm='truncated Maxwellian', n2='pair of normals', fx='fixed value',
           par='parameter', parn='normal parameter', parf='fixed parameter', ki='random inclination', kO='random node', ko='random periapsis', kall='random orientation', kn='random anomaly', shi='shuffled inclination', shO='shuffled node', sho='shuffled periapsis', shn='shuffled anomaly')


def streams(c):
    """storage class of every variable the generators reach"""
    m = c.compile('random.cpp')
    dem = vg.VG(m, []).dem
    uses = {}
    for n, f in m.funcs.items():
        if f.lines is None: continue
        uses[n] = set(re.findall(r'@("[^"]*"|[\w$.]+)', '\n'.join(f.lines)))
    for e, lab in GEN.items():
        if e not in m.funcs: raise Broken('driver entry %s is missing' % e)
        seen = set(); todo = [e]; eng = []
        while todo:
            n = todo.pop()
            if n in seen: continue
            seen.add(n)
            for x in uses.get(n, ()):
                x = x.strip('"')
                if x in m.funcs: todo.append(x); continue
                if x not in m.globals_src: continue
                src = m.globals_src[x]; d = dem.get(x) or subprocess.run(['c++filt', x], capture_output=True, text=True).stdout.strip()
                if d.startswith(('vtable ', 'typeinfo ', 'VTT ', 'construction vtable', 'guard variable', 'std::', '__', 'llvm.')) or x.startswith(('.str', 'switch.table', '_ZTH', '__tls_guard', '__dso_handle')): continue
                kind = src
                if re.search(r'\bconstant\b', kind.split('{')[0]): continue
                tl = 'thread_local' in kind
                if tl: eng.append(d); continue
                c.decided('storage')
                if writes(m, x, seen | set(uses)):
                    c.violation('storage', lab, 'every thread uses the one variable %s without a lock' % d)
        c.decided('storage', 1 + len(eng))
        c.funcs |= {dem.get(x, x) for x in seen}


def writes(m, g, funcs):
    """the variable is written somewhere outside its own one-time initialisation"""
    pat = re.compile(r'@"?%s"?(?![\w$.])' % re.escape(g))
    for n in funcs:
        f = m.funcs.get(n)
        if f is None or f.lines is None or n.startswith(('__cxx_global_var_init', '_GLOBAL__sub_I')): continue
        for ln in f.lines:
            if not pat.search(ln): continue
            s = ln.strip()
            if re.match(r'^(?:%[\w.]+ = )?load ', s) or s.startswith(';'): continue
            if 'invariant.start' in s or '__cxa_atexit' in s or 'lifetime' in s: continue
            return True
    return False


def run():
    c = Check('P28', 'Thread safety', 'lockset analysis of every operation of a concurrent file over its value graph (mutex state kept in the memory model), lock balance over all normal and exceptional paths of the optimised code, and a storage-class rule on every variable reachable from a generator', min_obl=200,
              assumptions=['std::mutex excludes; standard streams touch no state of the handle but their own object'])
    locks(c); unwinding(c); streams(c)
    return c.finish()
