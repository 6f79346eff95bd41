import os, re, subprocess, json
from concurrent.futures import ThreadPoolExecutor
from hx import *
SRC = REPO + '/src'
THIRD = ('taskflow/',)
MERGED = {'linkonce', 'linkonce_odr', 'weak', 'weak_odr', 'internal', 'private', 'available_externally', 'common', 'extern_weak'}
BASE = ['clang++', '-std=c++17', '-O0', '-Xclang', '-disable-llvm-passes', '-g', '-w', '-pthread', '-S', '-emit-llvm', '-I', SRC]
MODES = [('as delivered', []), ('vector unit', ['-mavx2', '-mfma']), ('parallel substeps', ['-DBS_SUBSTEP_PARALLEL'])]


def headers():
    r = []
    for d, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith(('.hpp', '.h', '.tpp', '.hh')): r.append(os.path.relpath(os.path.join(d, f), SRC))
    return sorted(h for h in r if not h.startswith(THIRD))


def build(c, name, incs, flags=()):
    src = '%s/%s.cpp' % (c.dir, name)
    with open(src, 'w') as fh: fh.write(''.join('#include "%s"\n' % i for i in incs))
    r = subprocess.run(BASE + list(flags) + [src, '-o', src[:-4] + '.ll'], capture_output=True, text=True)
    try: os.unlink(src)
    except OSError: pass
    return (None, r.stderr) if r.returncode else (src[:-4] + '.ll', '')


DEF = re.compile(r'^define (.*?)@("[^"]*"|[\w$.]+)\((.*)$')
GLB = re.compile(r'^@("[^"]*"|[\w$.]+) = (.*?)\b(global|constant|alias|ifunc)\b(.*)$')
META = re.compile(r'^(!\d+) = (?:distinct )?!(\w+)\((.*)\)$')


def fields(t, k):
    m = re.search(r'\b%s: (?:"([^"]*)"|(!\d+|\w+))' % k, t)
    return m and (m.group(1) if m.group(1) is not None else m.group(2))


def scan(path):
    """(definitions, merged, strong): strong is [(kind, symbol, file, line)] over every function, variable and alias this unit defines"""
    meta, defs = {}, []
    with open(path) as fh:
        for l in fh:
            if l.startswith('!'):
                m = META.match(l.rstrip())
                if m and m.group(2) in ('DISubprogram', 'DIFile', 'DIGlobalVariable', 'DIGlobalVariableExpression'): meta[m.group(1)] = (m.group(2), m.group(3))
            elif l.startswith('define '):
                m = DEF.match(l); lk = set(m.group(1).split()); d = re.findall(r'!dbg (!\d+)', m.group(3))
                defs.append(('function', m.group(2).strip('"'), lk, d[-1] if d else None))
            elif l.startswith('@'):
                m = GLB.match(l.rstrip())
                if not m: continue
                lk = set(m.group(2).split())
                if 'external' in lk: continue                    # declaration
                d = re.findall(r'!dbg (!\d+)', m.group(4))
                defs.append(({'alias': 'function', 'ifunc': 'function'}.get(m.group(3), 'variable'), m.group(1).strip('"'), lk, d[0] if d else None))
    os.unlink(path)

    def where(d):
        if d not in meta: return None
        k, t = meta[d]
        if k == 'DIGlobalVariableExpression': return where(fields(t, 'var'))
        f = fields(t, 'file')
        if f not in meta: return None
        ft = meta[f][1]; n = fields(ft, 'filename') or ''
        if not os.path.isabs(n): n = os.path.join(fields(ft, 'directory') or '', n)
        return os.path.realpath(n), int(fields(t, 'line') or 0)
    strong = []; own = 0
    for kind, sym, lk, d in defs:
        w = where(d)
        mine = w is not None and w[0].startswith(os.path.realpath(SRC))
        own += mine
        if sym.startswith('llvm.') or (lk & MERGED): continue
        strong.append((kind, sym, w))
    return len(defs), own, strong


def run():
    c = Check('P30', 'Header definitions in several translation units', 'linkage of every function, variable and alias defined in LLVM IR by each own header, alone after the main header, with all headers together, and in the build modes the sources offer; strong external definitions are violations, as is a header that cannot be read twice',
              min_obl=40, assumptions=['templates a program instantiates have vague linkage by the language rules', 'headers that do not compile even after the main header are not covered (listed)'])
    hs = headers()
    if 'spaceHub.hpp' not in hs: raise Broken('src/spaceHub.hpp is missing')
    jobs = [('h%d' % i, [h], ['spaceHub.hpp', h, h], []) for i, h in enumerate(hs)]
    jobs += [('m%d' % i, ['spaceHub.hpp (%s)' % n], ['spaceHub.hpp', 'spaceHub.hpp'], f) for i, (n, f) in enumerate(MODES)]

    def one(j):
        p, err = build(c, j[0], j[2], j[3])
        if p is None:
            q, err1 = build(c, j[0] + 'o', j[2][:2] if j[2][0] != j[2][1] else j[2][:1], j[3])
            if q: os.unlink(q); return j, 'twice', err
            return j, 'none', err1
        return j, 'ok', scan(p)
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, jobs))
    skipped = [j[1][0] for j, k, _ in res if k == 'none']
    good = [j[1][0] for j, k, _ in res if k != 'none' and j[0].startswith('h')]
    if 'spaceHub.hpp' in skipped: raise Broken('the main header does not compile: ' + [e for j, k, e in res if j[1][0] == 'spaceHub.hpp'][0][:1500])
    p, err = build(c, 'all', ['spaceHub.hpp'] + good)
    if p: res.append((('all', ['all headers together']), 'ok', scan(p)))
    else: c.undecided('linkage', 'the headers do not compile together: ' + err[:300])
    nd = no = 0; seen = {}
    for j, k, v in res:
        h = j[1][0]
        if k == 'none': continue
        if k == 'twice':
            m = re.search(r'^(\S+?):(\d+):\d+: error: (.*)$', v, re.M)
            c.decided('include guard'); c.violation('include guard', '%s read twice' % h, 'the header compiles once but not when a unit reads it twice: %s' % (m.group(3) if m else v[:200]), (m.group(1), int(m.group(2))) if m else None); continue
        if j[0] != 'all': c.true('include guard', '%s read twice' % h, True)
        d, o, strong = v; nd += d; no += o
        c.decided('linkage')
        for kind, sym, w in strong: seen.setdefault((kind, sym), (w, h))
    if no < 300: raise Broken('only %d definitions from the headers were seen in the IR' % no)
    for (kind, sym), (w, h) in sorted(seen.items()):
        dem = subprocess.run(['c++filt', sym], capture_output=True, text=True).stdout.strip() or sym
        if w is None:
            # no source position (an alias of a constructor): it is reported by its target when that is strong
            if any(x[1] is not None for x in [(k, v[0]) for k, v in seen.items()]): continue
        f = os.path.relpath(w[0], SRC) if w else h
        c.violation('linkage', '%s %s' % (kind, dem.split('(')[0]), '%s defined in %s with external linkage and not inline: two units that include it cannot be linked' % (dem[:150], f), (w[0], w[1]) if w else None)
    c.note('headers analysed: %d; not compiling after the main header, so not covered: %s; definitions inspected: %d' % (len(good), ', '.join(skipped) or 'none', nd))
    c.mods = dict.fromkeys(range(len([1 for r in res if r[1] != 'none'])))
    return c.finish(dict(headers_analysed=good, headers_not_covered=skipped, definitions_inspected=nd, definitions_from_headers=no))
