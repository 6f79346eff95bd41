"""P35: what outlives a call.  Every variable of static or thread storage that library code reaches is classified from its IR: who writes it (through any pointer that may come from it, across calls),
under which lock, and on what its one-time initialisation depends."""
from hx import *
import subprocess

EXT = [(('cfile.cpp',), {}), (('random.cpp',), {}), (('threads.cpp',), {}), (('scatter.cpp',), {}), (('orbits.cpp',), {}), (('helpers.cpp',), {}), (('arrays.cpp',), {}), (('slices.cpp',), {}), (('fatal.cpp',), {}), (('errors.cpp',), {}), (('pid.cpp',), {}),
       (('interactions.cpp',), {}), (('vec.cpp',), {}), (('kahan.cpp',), {})]
OWN = [(('hidden.cpp',), dict(defs=('KIND=%d' % k,))) for k in range(4)]
SKIP = re.compile(r'^(?:vtable |typeinfo |VTT |construction vtable|guard variable|reference temporary|std::|__gnu|__cxx|__dso|__tls|llvm\.|\.str|switch\.table|_ZTH|_ZGV|__const\.|g_|drv::|constinit)')
SYNC = re.compile(r'%"?(?:class|struct|union)\.(?:std::(?:mutex|recursive_mutex|timed_mutex|shared_mutex|shared_timed_mutex|once_flag|condition_variable)|pthread_mutex_t|std::atomic_flag)"?(?:\s|$)|^\{ %"?(?:union|struct|class)\.(?:pthread_(?:mutex|rwlock|cond)_t|std::(?:mutex|condition_variable))"? \}')
RAND = re.compile(r'%"?(?:class|struct)\.std::(?:\w*_engine|\w+_distribution|random_device|__mersenne\w*)')
# C library functions with a state of their own
NONREENTRANT = {'rand', 'srand', 'random', 'srandom', 'drand48', 'srand48', 'lrand48', 'mrand48', 'strtok', 'localtime', 'gmtime', 'ctime', 'asctime', 'setlocale', 'putenv', 'setenv', 'unsetenv', 'tmpnam', 'strerror',
                'fesetround', 'feenableexcept', 'fedisableexcept', 'fesetenv', 'lgamma', 'lgammaf', 'lgammal', 'signal', 'atexit', 'chdir'}
PURE = re.compile(r'^(?:strlen|memcmp|strcmp|memchr|llvm\.(?!mem)|__cxa_guard|__cxa_atexit|_ZSt\d*__throw|__cxa_throw|abort|exit|__assert_fail)')


class Mod:
    def __init__(s, m, c, label):
        s.m = m; s.label = label; s.c = c
        s.dem = m.demangle()
        s.funcs = {n: f for n, f in m.funcs.items() if not f.declared_only}
        for f in m.funcs.values(): f.parse()
        s.flat = {n: [(b, k, ins) for b, il in f.blocks.items() for k, ins in enumerate(il)] for n, f in s.funcs.items()}
        # candidates
        s.vars = {}
        for g, src in m.globals_src.items():
            d = s.dem.get(g) or g
            head = src.split('{')[0].split('"')[0]
            if re.search(r'\b(?:constant|alias|ifunc)\b', head) or SKIP.match(d) or SKIP.match(g) or ('external' in head.split() and not d.startswith('hub::')) or d.startswith('initializer for'): continue
            if re.match(r'_ZGV|_ZTV|_ZTI|_ZTS|_ZTT|_ZGR', g): continue
            s.vars[g] = d
        s.uses = {}
        for n, fl in s.flat.items():
            for b, k, ins in fl:
                for g in globs(ins): s.uses.setdefault(g, set()).add(n)
        s.summ = {}       # (function, parameter) -> (writes at, escapes, returned, tainted params written into)
        s.locks = {}; s.bases = {}

    def type_text(s, g):
        mm = re.search(r'\b(?:global|constant) (.*)', s.m.globals_src[g])
        return mm.group(1) if mm else ''

    def tname(s, g):
        mm = re.search(r'(?:global|constant) (%"[^"]*"|%[\w.:]+|\S+)', s.m.globals_src[g])
        return mm.group(1) if mm else ''

    # ---- pointers that may come from a root, and what is done with them
    def trace(s, n, roots, gname=None, stack=(), boxes=()):
        """roots: registers of n that lead to the object; boxes: registers of n whose memory holds such pointers; gname: the variable itself.
        -> writes {position: (location, what)}, escapes [(location, what, parameter it is stored into or None)], the result may come from it"""
        f = s.funcs[n]; der = set(roots); box = set(boxes); writes = {}; esc = {}; ret = False
        agg = ('ptr', 'struct', 'arr', 'vec')
        if n not in s.bases:
            base = {}
            for b, k, i in s.flat[n]:
                if i[0] == 'gep' and i[4][0][1][0] == 'reg': base[i[1]] = i[4][0][1][1]
                elif i[0] == 'cast' and i[5][0] == 'reg': base[i[1]] = i[5][1]
            s.bases[n] = (base, {i[1] for b, k, i in s.flat[n] if i[0] == 'alloca'}, {p: x for x, (t, p) in enumerate(f.params)})
        base, allocas, params = s.bases[n]

        def root(v):
            if v[0] != 'reg': return None
            r = v[1]; seen = set()
            while r in base and r not in seen: seen.add(r); r = base[r]
            return r

        def isd(v):
            if v[0] == 'reg': return v[1] in der
            return gname is not None and gname in globs(v)

        def isb(v): return root(v) in box or (v[0] == 'reg' and v[1] in box)
        changed = True

        def add(d):
            nonlocal changed
            if d is not None and d not in der: der.add(d); changed = True

        def keep(v, b, k, dbg):
            """a pointer to the object is stored at v"""
            nonlocal changed
            r = root(v)
            if isd(v) or isb(v): return
            if r in allocas: box.add(r); changed = True
            elif r in params: esc[(b, k, r)] = (dbg, 'its address is kept', params[r])
            else: esc[(b, k, r)] = (dbg, 'its address is kept', None)
        while changed:
            changed = False
            for b, k, i in s.flat[n]:
                op = i[0]
                if op == 'load':
                    if i[3].k in agg and (isd(i[4]) or isb(i[4])): add(i[1])
                elif op == 'store':
                    if isd(i[5]): writes[(b, k)] = (i[2], 'stored to')
                    if i[3].k in agg and isd(i[4]): keep(i[5], b, k, i[2])
                elif op == 'gep':
                    if isd(i[4][0][1]): add(i[1])
                elif op == 'cast':
                    if isd(i[5]) and (i[4].k == 'ptr' or i[3] in ('inttoptr', 'ptrtoint')): add(i[1])
                elif op == 'phi':
                    if i[3].k == 'ptr':
                        if any(isd(v) for v, _ in i[4]): add(i[1])
                        if any(isb(v) for v, _ in i[4]) and i[1] not in box: box.add(i[1]); changed = True
                elif op == 'select':
                    if i[4].k == 'ptr':
                        if isd(i[5]) or isd(i[6]): add(i[1])
                        if (isb(i[5]) or isb(i[6])) and i[1] not in box: box.add(i[1]); changed = True
                elif op in ('extractvalue', 'insertvalue', 'freeze'):
                    if isd(i[4]) or (op == 'insertvalue' and isd(i[5])): add(i[1])
                elif op == 'atomicrmw':
                    if isd(i[4]): writes[(b, k)] = (i[2], 'updated')
                elif op == 'ret':
                    if i[4] is not None and i[3].k in agg and isd(i[4]): ret = True
                elif op in ('call', 'invoke'):
                    cal = i[4][1] if i[4][0] == 'glob' else None
                    hit = [(j, isd(a[1])) for j, a in enumerate(i[5]) if a[0].k in agg and (isd(a[1]) or isb(a[1]))]
                    if not hit: continue
                    if cal is None:
                        writes[(b, k)] = (i[2], 'handed to an unknown function'); continue
                    d = s.dem.get(cal, cal)
                    if cal.startswith('llvm.'):
                        if re.match(r'llvm\.mem(?:cpy|move)', cal):
                            if (0, True) in hit: writes[(b, k)] = (i[2], 'overwritten')
                            if any(j == 1 for j, x in hit) and root(i[5][0][1]) in allocas and root(i[5][0][1]) not in box: box.add(root(i[5][0][1])); changed = True
                        elif cal.startswith('llvm.memset'):
                            if (0, True) in hit: writes[(b, k)] = (i[2], 'overwritten')
                        elif cal.startswith(('llvm.threadlocal.address', 'llvm.launder', 'llvm.strip')): add(i[1])
                        continue
                    if cal in s.funcs:
                        for j, direct in hit:
                            w, e, r = s.param(cal, j, direct, stack)
                            if w: writes[(b, k)] = (i[2], w)
                            for what, into in e:
                                if into is None or into >= len(i[5]): esc[(b, k, None)] = (i[2], what, None)
                                else: keep(i[5][into][1], b, k, i[2])
                            if r and i[3].k in agg: add(i[1])
                        continue
                    if PURE.match(cal): continue
                    for j, direct in hit:
                        if not direct: continue
                        if ext_reads(d, cal, j, s.m.funcs.get(cal)):
                            if i[3].k == 'ptr': add(i[1])
                            continue
                        writes[(b, k)] = (i[2], 'changed by ' + re.sub(r'<.*>', '', d)[:80])
                        if i[3].k == 'ptr' and j == 0: add(i[1])
        return writes, list(esc.values()), ret

    def param(s, n, j, direct, stack):
        """what function n does to the object its j-th parameter leads to (directly, or through pointers kept in it): (written: text or None, escapes, returned)"""
        key = (n, j, direct)
        if key in s.summ: return s.summ[key]
        f = s.funcs[n]
        if j >= len(f.params): return ('passed as a variable argument', [], False)
        s.summ[key] = (None, [], False)
        p = {f.params[j][1]}
        for _ in range(4):
            old = s.summ[key]
            w, e, r = s.trace(n, p if direct else set(), None, stack + (key,), set() if direct else p)
            s.summ[key] = (next(iter(w.values()))[1] if w else None, sorted({(x[1], x[2]) for x in e if x[2] != j}, key=str), r)
            if s.summ[key] == old: break
        return s.summ[key]

    # ---- locks that are certainly held
    def net(s, n, stack=()):
        """locks a function certainly holds more (or fewer) on return"""
        if n in s.locks: return s.locks[n]
        if n in stack or n not in s.funcs: return 0
        s.locks[n] = 0
        h = s.held(n, stack + (n,))
        f = s.funcs[n]; vals = [h[(b, len(il) - 1)] for b, il in f.blocks.items() if il and il[-1][0] == 'ret' and (b, len(il) - 1) in h]
        s.locks[n] = min(vals) if vals else 0
        return s.locks[n]

    def held(s, n, stack=()):
        """position -> least number of locks held before it (function entered with none)"""
        f = s.funcs[n]; mt = [s.m.types.get(x) for x in ('class.std::mutex', 'class.std::recursive_mutex', 'class.std::shared_mutex', 'union.pthread_mutex_t')]
        own = {i[1] for b, k, i in s.flat[n] if i[0] == 'alloca' and any(i[3] is x for x in mt if x is not None)}
        ent = {f.entry: 0}; work = [f.entry]; out = {}; it = 0
        while work and it < 20000:
            it += 1; b = work.pop(); h = ent[b]; il = f.blocks[b]; succ = []
            for k, i in enumerate(il):
                out[(b, k)] = h
                before = h
                if i[0] in ('call', 'invoke') and i[4][0] == 'glob':
                    cal = i[4][1]
                    d = s.dem.get(cal, cal)
                    if cal in ('pthread_mutex_lock', 'pthread_rwlock_wrlock') or re.match(r'^std::(?:\w*_?mutex)::lock\(\)', d): h += 1
                    elif cal in ('pthread_mutex_unlock', 'pthread_rwlock_unlock') or re.match(r'^std::(?:\w*_?mutex)::unlock\(\)', d): h -= 1
                    elif cal in s.funcs: h += s.net(cal, stack)
                    if h > before and any(a[1][0] == 'reg' and a[1][1] in own for a in i[5]): h = before       # a lock nobody else can see
                if i[0] == 'invoke': succ += [(i[6], h), (i[7], before)]
            t = il[-1]
            if t[0] == 'br': succ.append((t[3], h))
            elif t[0] == 'condbr': succ += [(t[4], h), (t[5], h)]
            elif t[0] == 'switch': succ += [(t[5], h)] + [(x, h) for _, x in t[6]]
            for x, hh in succ:
                if x not in ent or hh < ent[x]: ent[x] = max(hh, -8); work.append(x)
        return out

    # ---- one-time initialisation
    def once(s, n, g):
        """positions of n inside the one-time initialisation of variable g: dominated by a won guard, or run by the loader"""
        if n.startswith(('__cxx_global_var_init', '_GLOBAL__', '__tls_init')) or s.dem.get(n, n).startswith(('TLS init', 'initializer')): return None
        f = s.funcs[n]; guard = '_ZGV' + g[2:] if g.startswith('_Z') else None
        starts = []
        for b, il in f.blocks.items():
            for k, i in enumerate(il):
                if i[0] in ('call', 'invoke') and i[4] == ('glob', '__cxa_guard_acquire') and guard in globs(i):
                    starts.append((b, k, i[1]))
        init = set()
        preds = {}
        for b, il in f.blocks.items():
            for x in succs(il[-1]): preds.setdefault(x, set()).add(b)
        doms = dominators(f, preds)
        won = set()
        for b, k, reg in starts:
            # the branch taken when the guard is won
            for b2, il in f.blocks.items():
                t = il[-1]
                if t[0] != 'condbr' or t[3][0] != 'reg': continue
                cmpi = next((i for il2 in f.blocks.values() for i in il2 if i[1] == t[3][1]), None)
                if cmpi is None or cmpi[0] != 'icmp' or ('reg', reg) not in (cmpi[5], cmpi[6]): continue
                won.add(t[4] if cmpi[3] == 'ne' else t[5])
        # a thread's variable: a plain byte guards it
        if 'thread_local' in s.m.globals_src[g]:
            greg = {}
            for b, il in f.blocks.items():
                for i in il:
                    if guard and guard in globs(i): greg[i[1]] = 1
                    elif i[0] in ('load', 'icmp', 'trunc', 'cast', 'and', 'call') and any(x[0] == 'reg' and x[1] in greg for x in operands(i)): greg[i[1]] = 1
                t = il[-1]
                if t[0] == 'condbr' and t[3][0] == 'reg' and t[3][1] in greg: won |= {t[4], t[5]} - {x for x in (t[4], t[5]) if len(preds.get(x, ())) > 1}
        return {b for b in f.blocks if any(w in doms.get(b, ()) for w in won)}

    def dependent(s, n):
        """registers and local objects of n that depend on its arguments"""
        f = s.funcs[n]; dep = {p for t, p in f.params}; mem = set(); base = {}
        allocas = {i[1] for b, k, i in s.flat[n] if i[0] == 'alloca'}
        for b, k, i in s.flat[n]:
            if i[0] == 'gep' and i[4][0][1][0] == 'reg': base[i[1]] = i[4][0][1][1]
            elif i[0] == 'cast' and i[5][0] == 'reg': base[i[1]] = i[5][1]

        def ra(v):
            if v[0] != 'reg': return None
            r = v[1]; seen = set()
            while r in base and r not in seen: seen.add(r); r = base[r]
            return r if r in allocas else None
        isd = lambda v: (v[0] == 'reg' and v[1] in dep) or ra(v) in mem
        ch = True
        while ch:
            ch = False
            for b, k, i in s.flat[n]:
                ops = operands(i)
                if not any(isd(v) for v in ops): continue
                if i[1] is not None and i[1] not in dep: dep.add(i[1]); ch = True
                if i[0] == 'store' and ra(i[5]) is not None and ra(i[5]) not in mem: mem.add(ra(i[5])); ch = True
                if i[0] in ('call', 'invoke') and not (i[4][0] == 'glob' and i[4][1].startswith(('llvm.lifetime', 'llvm.dbg'))):
                    for a in i[5]:
                        if a[0].k == 'ptr' and ra(a[1]) is not None and ra(a[1]) not in mem: mem.add(ra(a[1])); ch = True
        return isd


def succs(t):
    if t[0] == 'br': return [t[3]]
    if t[0] == 'condbr': return [t[4], t[5]]
    if t[0] == 'switch': return [t[5]] + [x for _, x in t[6]]
    if t[0] == 'invoke': return [t[6], t[7]]
    return []


def dominators(f, preds):
    order = []; seen = set(); st = [(f.entry, iter(succs(f.blocks[f.entry][-1])))]; seen.add(f.entry)
    while st:
        b, itr = st[-1]
        for x in itr:
            if x not in seen: seen.add(x); st.append((x, iter(succs(f.blocks[x][-1])))); break
        else: order.append(b); st.pop()
    order.reverse(); dom = {f.entry: {f.entry}}; ch = True
    while ch:
        ch = False
        for b in order:
            if b == f.entry: continue
            ps = [dom[p] for p in preds.get(b, ()) if p in dom]
            nd = (set.intersection(*ps) if ps else set()) | {b}
            if dom.get(b) != nd: dom[b] = nd; ch = True
    return dom


def globs(x, out=None):
    if out is None: out = set()
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'glob': out.add(x[1])
        else:
            for y in x: globs(y, out)
    elif isinstance(x, list):
        for y in x: globs(y, out)
    return out


def operands(x, out=None, top=True):
    """register operands of an instruction"""
    if out is None: out = []
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'reg': out.append(x)
        else:
            for y in x: operands(y, out, False)
    elif isinstance(x, list):
        for y in x: operands(y, out, False)
    return out


def ext_reads(d, cal, j, decl):
    """an external function that only reads its j-th argument"""
    q = d.split('(')[0]
    if re.search(r'\) const$', d) and j <= 1: return True
    if decl is not None:
        a = decl.attrs + ' ' + decl.mod.attr_src.get(decl.attrgroup, '')
        if re.search(r'memory\((?:none|read|argmem: read)', a): return True
    mm = re.match(r'^_ZN?K', cal)
    if mm and j <= 1: return True
    args = d[d.find('(') + 1:] if '(' in d else ''
    if j >= 1 and ' const&' in args and not re.search(r'[^t]&(?!&)', args.replace('const&', '')): return True
    return False


def files_of(m):
    """file of every function"""
    out = {}
    for n, f in m.funcs.items():
        if f.declared_only or f.dbg is None: continue
        l = m.loc(f.dbg)
        out[n] = (l[0] if l else '?')
    return out


def module(c, m, label):
    A = Mod(m, c, label)
    where = files_of(m)
    lib = {n for n in A.funcs if '/src/' in where.get(n, '') and not where[n].startswith('/usr')}
    c.funcs |= {A.dem.get(n, n) for n in lib}
    for n in lib: c.decided('hidden')
    seen_vars = 0
    for g, d in sorted(A.vars.items()):
        users = A.uses.get(g, set())
        short = re.sub(r'<.*>', '<…>', d)[:110]
        tname = A.tname(g)
        if SYNC.match(A.type_text(g)) or re.search(r' undef(?:,|$)', A.type_text(g)): c.decided('hidden'); continue      # a lock, or a class without members
        seen_vars += 1
        tl = 'thread_local' in A.m.globals_src[g].split('=')[0].split(' global ')[0]
        bad = []
        for n in sorted(users):
            w, esc, ret = A.trace(n, set(), g)
            if not w and not esc and not ret: c.decided('hidden'); continue
            init = A.once(n, g)
            if init is None: c.decided('hidden'); continue    # run by the loader, before any call
            held = None; isd = None
            for (b, k), (dbg, what) in sorted(w.items(), key=lambda x: str(x)):
                c.decided('hidden')
                loc = A.m.loc(dbg)
                fn = A.dem.get(n, n)
                if b in init:
                    isd = isd or A.dependent(n)
                    ins = A.funcs[n].blocks[b][k]
                    if any(isd(v) for v in operands(ins) if not (v[0] == 'reg' and g_only(A, n, v, g))):
                        bad.append(('its one-time initialisation uses the arguments of the first call', loc, fn))
                    continue
                if tl and RAND.match(tname): continue
                held = held or A.held(n)
                if held.get((b, k), 0) >= 1 and not tl: continue
                bad.append((what + (' (kept by the thread between calls)' if tl else ' without a lock'), loc, fn))
            if ret and not (tl and RAND.match(tname)):
                # a reference handed out: followed in the callers
                for cn, cb, ck, ci in callers(A, n):
                    w2, e2, r2 = A.trace(cn, {ci[1]}, None)
                    for (b, k), (dbg, what) in w2.items(): bad.append((what + ' through the reference %s returns' % A.dem.get(n, n)[:60], A.m.loc(dbg), A.dem.get(cn, cn)))
            for dbg, what, into in esc: bad.append((what, A.m.loc(dbg), A.dem.get(n, n)))
        for what, loc, fn in bad[:1]:
            c.violation('hidden', short, 'the %s variable outlives the call and is %s in %s' % ('thread' if tl else 'shared', what, re.sub(r'<.*>', '<…>', fn)[:100]), loc)
        if len(c.samples) < 10: c.samples.append(dict(kind='hidden', obligation=short, value_number='%s, used by %d functions' % (tname[:60], len(users)), decided_by='write and escape analysis'))
    # functions of the C library with a state of their own; settings of the standard streams
    for n in sorted(lib | {x for x in A.funcs if A.dem.get(x, x).startswith('hub::')}):
        held = None
        for b, k, i in A.flat[n]:
            if i[0] not in ('call', 'invoke') or i[4][0] != 'glob': continue
            cal = i[4][1]
            c.decided('library') if n in lib and cal in A.m.funcs and A.m.funcs[cal].declared_only else None
            if cal in NONREENTRANT:
                held = held or A.held(n)
                if cal.startswith(('fe', 'rand', 'srand')) or held.get((b, k), 0) < 1:
                    c.violation('library', A.dem.get(n, n)[:100], '%s() works on state shared by the whole process%s' % (cal, '' if cal.startswith(('fe', 'rand', 'srand')) else ' and no lock is held'), A.m.loc(i[2]))
    return seen_vars


def g_only(A, n, v, g):
    """the operand is the variable itself"""
    w = A.__dict__.setdefault('_der', {})
    key = (n, g)
    if key not in w:
        der = set(); fl = A.flat[n]; ch = True
        while ch:
            ch = False
            for b, k, i in fl:
                if i[1] is None or i[1] in der: continue
                if i[0] in ('gep', 'cast') or (i[0] == 'call' and i[4][0] == 'glob' and i[4][1].startswith('llvm.threadlocal')):
                    x = i[4][0][1] if i[0] == 'gep' else i[5] if i[0] == 'cast' else i[5][0][1]
                    if g in globs(x) or (x[0] == 'reg' and x[1] in der): der.add(i[1]); ch = True
        w[key] = der
    return v[1] in w[key]


def callers(A, n):
    for cn, fl in A.flat.items():
        for b, k, i in fl:
            if i[0] in ('call', 'invoke') and i[4] == ('glob', n) and i[1] is not None: yield cn, b, k, i


def run():
    c = Check('P35', 'Independent simulations', 'write and escape analysis of every variable of static or thread storage reachable from the library (through any derived pointer, across calls), with a must-held lock analysis, a dominance test of one-time initialisation and a dependence test of its operands', min_obl=1000,
              assumptions=['functions of the standard library change only the objects handed to them', 'variables the user sets before a run (the parameters of a disc) are not written by the library'])
    jobs = OWN + EXT
    n = 0
    mods = c.compile_many(jobs)
    for j, m in zip(jobs, mods):
        n += module(c, m, j[0][0] + (' ' + j[1]['defs'][0] if j[1] else ''))
    c.note('%d variables of static or thread storage in %d programs' % (n, len(jobs)))
    return c.finish()
