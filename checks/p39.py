"""Settings: what the command line and a configuration file say reaches the program; strings are terms, evaluated over random texts."""
from hx import *
import ast
from vg import Fn
from mpmath import mpf
B = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
IT = r'__gnu_cxx::__normal_iterator<char(?: const)?\*'


def word(s, k):
    w = s.split(); return w[k] if k < len(w) else None
def number(kind):
    rx = {'int': r'[+-]?\d+', 'fp': r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?'}[kind]
    def f(s):
        m = None if s is None else re.match(rx, s.strip())
        return ('number', kind, m.group(0).lstrip('+') if m else None)
    return f
SPACE = set(' \t\n\v\f\r')
def raw(x): return ast.literal_eval(x[1]) if isinstance(x, tuple) else x
OPS = {'s.lit': raw, 's.cat': lambda *a: ''.join(a), 's.word': word, 's.int': number('int'), 's.fp': number('fp'), 's.len': lambda s: len(s), 's.at': lambda s, k: (ord(s[k]) & 255) if k < len(s) else 0,
       's.removeif': lambda s, p: (lambda r: r + s[len(r):])(''.join(ch for ch in s if not (ch in SPACE))) if raw(p) == 'isspace' else None,
       's.keptlen': lambda s, p: sum(ch not in SPACE for ch in s), 's.erase': lambda s, a, b: s[:a] + s[b:], 's.find': lambda s, ch, at: s.find(chr(ch), at) & (1 << 64) - 1 if at <= len(s) else (1 << 64) - 1,
       's.rfind': lambda s, ch: s.rfind(chr(ch)) & (1 << 64) - 1, 's.sub': lambda s, a, n: s[a:] if n >= len(s) else s[a:a + n], 'm.set': lambda m, k, v: {**m, k: v}, 'm.new': lambda *a: {}, 'm.get': lambda m, k: m.get(k, ''), 'm.add': lambda m, k, v: m if k in m else {**m, k: v}, 'm.empty': lambda m: int(not m), 'm.has': lambda m, k: int(k in m),
       's.last': lambda s: ord(s[-1]) & 255 if s else 0, 's.eq': lambda a, b: int(a == b)}
pit.OPS.update(OPS)


def run():
    c = Check('P39', 'Settings', 'abstract interpretation of the option and configuration code with strings, streams and maps as terms; the value delivered is compared with the meaning of the text over random texts, and every conversion with the range of its type', min_obl=120)
    m = c.compile('settings.cpp')
    Z = 32

    def sget(g, st, p):
        e = st.cells(p.obj).get(p.off)
        if e is None or e[0] != Z: raise Undecided('a string of unknown content')
        return e[1]
    def sset(g, st, p, t):
        w = st.wcells(p.obj)
        for k in [k for k in w if p.off <= k < p.off + Z]: del w[k]
        w[p.off] = (Z, t)
        for o, mo, key in entries:                    # an entry of a map
            if o is p.obj: mset(st, mo, mk('m.set', mget(st, mo), key, t))
    def mget(st, mo): return st.cells(mo[0]).get(mo[1], (0, mk('m.new', 0)))[1]
    def mset(st, mo, t): st.wcells(mo[0])[mo[1]] = (56, t)
    entries = []; E_ = dict(pieces={}, ext={}, opened=[])
    def text(g, st, p):
        """a term for a character pointer"""
        if isinstance(p, P) and p.obj in args: return args[p.obj]
        if isinstance(p, P) and p.obj in cs: return cs[p.obj]
        s = ''
        for k in range(4096):
            b = g.load(st, P(p.obj, p.off + k), ir.int_t(8))
            if not isinstance(b, int): raise Undecided('text that is not constant')
            if b == 0: return mk('s.lit', s)
            s += chr(b)
    args = {}; cs = {}
    # ---------------------------------------------------------------- strings
    def sargs(g, st, a, n, k=1):
        """the text that the argument list of a constructor, assign, append or operator denotes, or None; k is the position of the first argument"""
        d = g.dem.get(n, n); at_ = d.rindex('(', 0, d.rindex(')')) if '(' in d else len(d)
        dep = 0; i = d.rindex(')')
        for at_ in range(i, -1, -1):
            dep += (d[at_] == ')') - (d[at_] == '(')
            if dep == 0: break
        sig = re.sub(r'(, )?std::allocator<char> (const)? ?&', '', re.sub(B + '|std::string', 'STR', d[at_ + 1:i])).strip()
        if sig == '': return mk('s.lit', '')
        if re.fullmatch(r'STR ?(const)? ?&&?', sig): return sget(g, st, a[k])
        if re.fullmatch(r'STR const ?&, unsigned long', sig): return mk('s.sub', sget(g, st, a[k]), a[k + 1], (1 << 64) - 1)
        if re.fullmatch(r'STR const ?&, unsigned long, unsigned long', sig): return mk('s.sub', sget(g, st, a[k]), a[k + 1], a[k + 2])
        if sig == 'char const*': return text(g, st, a[k])
        if re.fullmatch(r'char const\*, unsigned long', sig): return text(g, st, a[k]) if not isinstance(a[k + 1], T) and a[k].obj not in cs and a[k].obj not in args else mk('s.sub', text(g, st, a[k]), 0, a[k + 1])
        if sig == 'char' and isinstance(a[k], int): return mk('s.lit', chr(a[k] & 255))
        if re.fullmatch(r'unsigned long, char', sig) and isinstance(a[k], int) and isinstance(a[k + 1], int): return mk('s.lit', chr(a[k + 1] & 255) * a[k])
        raise Undecided('string made by ' + d[:150])
    def s_ctor(g, st, a, rt, n): sset(g, st, a[0], sargs(g, st, a, n))
    def s_app(g, st, a, rt, n): sset(g, st, a[0], mk('s.cat', sget(g, st, a[0]), sargs(g, st, a, n))); return a[0]
    def s_clear(g, st, a, rt, n): sset(g, st, a[0], mk('s.lit', ''))
    def s_plus(g, st, a, rt, n):
        d = g.dem.get(n, n); i = d.rindex(')'); dep = 0
        for at_ in range(i, -1, -1):
            dep += (d[at_] == ')') - (d[at_] == '(')
            if dep == 0: break
        sig = re.sub(B + '|std::string', 'STR', d[at_ + 1:i]).split(', ')
        if len(sig) != 2: raise Undecided('sum of strings ' + d[:150])
        part = [sget(g, st, x) if 'STR' in t else text(g, st, x) if '*' in t else mk('s.lit', chr(x & 255)) for x, t in zip(a[1:], sig)]
        sset(g, st, a[0], mk('s.cat', *part))
    def s_equal(g, st, a, rt, n):
        d = g.dem.get(n, n); part = [sget(g, st, x) if k == 0 and 'char const*, %s' not in d and not re.search(r'\(char const\*, ', d) or k == 1 and not re.search(r', char const\*\)', d) else text(g, st, x) for k, x in enumerate(a[:2])]
        return mk('bin', mk('s.eq', *part))
    def slen(g, st, a, rt, n): return mk('s.len', text(g, st, a[0]))
    def s_asg(g, st, a, rt, n):
        sset(g, st, a[0], text(g, st, a[1]) if re.search(r'=\(char const\*', g.dem.get(n, n)) else sget(g, st, a[1])); return a[0]
    def begin(g, st, a, rt, n):
        o = g.new_obj('chars', None, 'input'); its[o] = a[0]; return P(o, 0)
    def end(g, st, a, rt, n):
        o = next((k for k, v in its.items() if v.obj is a[0].obj and v.off == a[0].off), None)
        if o is None: o = begin(g, st, a, rt, n).obj
        return P(o, mk('s.len', sget(g, st, a[0])))
    its = {}
    def remove_if(g, st, a, rt, n):
        own = its.get(a[0].obj); pred = a[2].name if isinstance(a[2], Fn) else None
        if own is None or pred != 'isspace' or a[0].off != 0 or a[1].off is not mk('s.len', sget(g, st, own)): raise Undecided('removal of other characters than all white space')
        old = sget(g, st, own); sset(g, st, own, mk('s.removeif', old, 'isspace')); return P(a[0].obj, mk('s.keptlen', old, 'isspace'))
    def erase(g, st, a, rt, n):
        sset(g, st, a[0], mk('s.erase', sget(g, st, a[0]), a[1].off, a[2].off)); return a[1]
    def at(k):
        def h(g, st, a, rt, n):
            o = g.new_obj('char', 8, 'input'); s = sget(g, st, a[0]); st.wcells(o)[0] = (1, mk('s.at', s, a[1] if k is None else 0)); return P(o, 0)
        return h
    def at_back(g, st, a):
        o = g.new_obj('char', 8, 'input'); s = sget(g, st, a[0]); st.wcells(o)[0] = (1, mk('s.last', s)); return P(o, 0)
    def cstr(g, st, a, rt, n):
        o = g.new_obj('text', None, 'input'); cs[o] = sget(g, st, a[0]); return P(o, 0)
    def ch(x): return x & 255 if isinstance(x, int) else x
    S = B + r'::'
    strings = [(S + r'basic_string(<.*>)?\(', s_ctor), (S + r'~basic_string', lambda g, st, a, rt, n: None), (S + r'operator=\(', s_asg), (S + r'assign\(', lambda g, st, a, rt, n: (sset(g, st, a[0], sargs(g, st, a, n)), a[0])[1]), (S + r'(operator\+=|append|push_back)\(', s_app), (S + r'clear\(', s_clear), (r'std::operator\+ ?<char', s_plus), (r'std::operator== ?<char', s_equal), (r'^strlen$', slen), (r'^std::char_traits<char>::length', slen), (S + r'reserve\(', lambda g, st, a, rt, n: None), (S + r'back\(', lambda g, st, a, rt, n: at_back(g, st, a)), (S + r'c?begin\(', begin), (S + r'c?end\(', end), (r'std::remove_if<' + IT, remove_if),
               (r'^' + IT + r'.*::__normal_iterator', lambda g, st, a, rt, n: st.wcells(a[0].obj).__setitem__(a[0].off, (8, g.load(st, a[1], ir.PTR)))), (S + r'erase\(' + IT, erase), (S + r'(operator\[\]|at)\(', at(None)), (S + r'front\(', at(0)),
               (S + r'empty\(', lambda g, st, a, rt, n: mk('ieq', 64, mk('s.len', sget(g, st, a[0])), 0)), (S + r'(size|length)\(', lambda g, st, a, rt, n: mk('s.len', sget(g, st, a[0]))),
               (S + r'find(_first_of)?\(char, unsigned long\)', lambda g, st, a, rt, n: mk('s.find', sget(g, st, a[0]), ch(a[1]), a[2])), (S + r'(rfind|find_last_of)\(char, unsigned long\)', lambda g, st, a, rt, n: mk('s.rfind', sget(g, st, a[0]), ch(a[1]))),
               (S + r'substr\(', lambda g, st, a, rt, n: sset(g, st, a[0], mk('s.sub', sget(g, st, a[1]), a[2], a[3]))), (S + r'(c_str|data)\(', cstr),
               (r'^std::allocator<char>::', lambda g, st, a, rt, n: None), (r'^std::__new_allocator<char>::', lambda g, st, a, rt, n: None)]
    # ---------------------------------------------------------------- conversions
    def conv(kind, ptr):
        def h(g, st, a, rt, n):
            s = text(g, st, a[0]) if ptr else sget(g, st, a[0])
            if kind[0] == 'i' and a[-1] != 10 and len(a) > 2: c.violation('conversion', 'base', 'whole numbers are read in base %s' % (a[-1],), g.rloc())
            r = mk('s.int' if kind[0] == 'i' else 's.fp', s); got.append((kind[1:], r))
            return mk('conv', kind, r)
        return h
    got = []
    convs = [(r'^std::__cxx11::%s\(std' % f, conv(k, False)) for f, k in (('stof', 'ffloat'), ('stod', 'fdouble'), ('stold', 'fldouble'), ('stoi', 'iint'), ('stol', 'ilong'), ('stoll', 'ilong'), ('stoul', 'iulong'), ('stoull', 'iulong'))] \
        + [(r'^%s$' % f, conv(k, True)) for f, k in (('strtof', 'ffloat'), ('strtod', 'fdouble'), ('atof', 'fdouble'), ('strtold', 'fldouble'), ('strtol', 'ilong'), ('strtoll', 'ilong'), ('strtoul', 'iulong'), ('strtoull', 'iulong'))]
    # ---------------------------------------------------------------- streams
    SS = r'std::__cxx11::basic_[io]?stringstream<.*>::'
    def obj(p): return p.obj
    def content(st, o): return st.cells(o).get('text', (0, mk('s.lit', '')))[1]
    def ss_ctor(g, st, a, rt, n):
        vptr(g, st, a[0]); o = obj(a[0]); w = st.wcells(o)
        w['text'] = (0, sget(g, st, a[1]) if len(a) > 2 or (len(a) == 2 and isinstance(a[1], P)) else mk('s.lit', '')); w['next'] = (0, 0)
    vt = []
    def vptr(g, st, p):
        if not vt: vt.append(g.new_obj('vtable', 64, 'input'))
        st.wcells(vt[0])[8] = (8, 0); st.wcells(p.obj)[p.off] = (8, P(vt[0], 32)); st.wcells(p.obj)[p.off + 16] = (8, P(vt[0], 32))
    def put(f):
        def h(g, st, a, rt, n):
            o = obj(a[0]); w = st.wcells(o); w['text'] = (0, mk('s.cat', content(st, o), f(g, st, a))); return a[0]
        return h
    def nextword(st, o):
        w = st.wcells(o); k = w.get('next', (0, 0))[1]; w['next'] = (0, k + 1); return mk('s.word', content(st, o), k)
    def get_num(kind, z):
        def h(g, st, a, rt, n):
            r = mk('s.int' if kind[0] == 'i' else 's.fp', nextword(st, obj(a[0]))); got.append((kind[1:], r)); st.wcells(a[1].obj)[a[1].off] = (z, mk('conv', kind, r)); return a[0]
        return h
    def get_str(g, st, a, rt, n): sset(g, st, a[1], nextword(st, obj(a[0]))); return a[0]
    NL = 3
    def getline(g, st, a, rt, n):
        w = st.wcells(obj(a[0])); k = w.get('line', (0, 0))[1]; w['line'] = (0, k + 1)
        if not isinstance(k, int): raise Undecided('lines read under a condition')
        if k < NL: sset(g, st, a[1], mk('in', 'line%d' % k, 's'))
        return a[0]
    def f_ctor(g, st, a, rt, n): vptr(g, st, a[0]); E_['opened'].append((sget(g, st, a[1]) if 'basic_string' in g.dem.get(n, n).split('(', 1)[1] else text(g, st, a[1]), a[2] if len(a) > 2 and 'basic_fstream' in g.dem.get(n, n) else 8, g.rloc()))
    def good(g, st, a, rt, n):
        k = st.cells(obj(a[0])).get('line', (0, 0))[1]; return int(k <= NL)
    II = r'std::(?:basic_istream<.*>|istream)::operator>>\('
    io = [(SS + r'basic_[io]?stringstream\(', ss_ctor), (SS + r'~', lambda g, st, a, rt, n: None), (r'std::basic_ostream<.*>& std::operator<< ?<.*>\(.*&, char const\*\)', put(lambda g, st, a: text(g, st, a[1]))),
          (r'std::basic_ostream<.*>& std::operator<< ?<.*>\(.*&, char\)', put(lambda g, st, a: mk('s.lit', chr(a[1] & 255)))), (r'std::operator<< ?<.*>\(.*&, %s const&\)' % B, put(lambda g, st, a: sget(g, st, a[1]))),
          (II + r'double', get_num('fdouble', 8)), (II + r'float', get_num('ffloat', 4)), (II + r'int', get_num('iint', 4)), (II + r'long', get_num('ilong', 8)), (II + r'unsigned long', get_num('iulong', 8)), (r'std::operator>> ?<.*>\(.*&, %s&\)' % B, get_str),
          (r'std::getline<.*>\(', getline), (r'^std::basic_i?fstream<.*>::basic_i?fstream\((%s|std::string|char)' % B, f_ctor), (r'^std::basic_i?fstream<.*>::is_open', lambda g, st, a, rt, n: 1), (r'^std::basic_i?fstream<.*>::(~|close)', lambda g, st, a, rt, n: None),
          (r'^std::basic_ios<.*>::(operator bool|good)\b', good), (r'^std::basic_ios<.*>::(operator!|fail|bad|eof)', lambda g, st, a, rt, n: 1 - good(g, st, a, rt, n))]
    # ---------------------------------------------------------------- the map of a configuration
    U = r'std::(?:unordered_)?map<.*>::'
    def mo(p): return (p.obj, p.off)
    def m_at(g, st, a, rt, n):
        key = sget(g, st, a[1]); o = g.new_obj('entry', 32, 'input'); st.wcells(o)[0] = (Z, mk('m.get', mget(st, mo(a[0])), key)); entries.append((o, mo(a[0]), key)); return P(o, 0)
    def m_find(g, st, a, rt, n):
        key = sget(g, st, a[1]); o = g.new_obj('node', 64, 'input'); st.wcells(o)[0] = (Z, key); st.wcells(o)[32] = (Z, mk('m.get', mget(st, mo(a[0])), key)); found[o] = mk('m.has', mget(st, mo(a[0])), key); return P(o, 0)
    found = {}
    END = []
    def m_end(g, st, a, rt, n):
        if not END: END.append(g.new_obj('end', 8, 'input'))
        return P(END[0], 0)
    def m_cmp(neg):
        def h(g, st, a, rt, n):
            x = [g.load(st, p, ir.PTR) for p in a[:2]]
            f = [found.get(q.obj) for q in x if isinstance(q, P)]; e = any(isinstance(q, P) and END and q.obj is END[0] for q in x)
            f = [q for q in f if q is not None]
            if len(f) != 1 or not e: raise Undecided('comparison of map iterators')
            b = mk('bin', f[0]); return b if neg else vg.bnot(b)
        return h
    maps = [(U + r'(unordered_map|map)\(', lambda g, st, a, rt, n: mset(st, mo(a[0]), mk('m.new', 0))), (U + r'~', lambda g, st, a, rt, n: None), (U + r'(operator\[\]|at)\(', m_at), (U + r'find\(', m_find), (U + r'c?end\(', m_end),
            (U + r'empty\(', lambda g, st, a, rt, n: mk('bin', mk('m.empty', mget(st, mo(a[0]))))), (U + r'insert_or_assign<', lambda g, st, a, rt, n: (mset(st, mo(a[0]), mk('m.set', mget(st, mo(a[0])), sget(g, st, a[1]), sget(g, st, a[2]))), (P(a[0].obj, 0), 1))[1]),
            (U + r'(emplace|try_emplace)<', lambda g, st, a, rt, n: (mset(st, mo(a[0]), mk('m.add', mget(st, mo(a[0])), sget(g, st, a[1]), sget(g, st, a[2]))), (P(a[0].obj, 0), 1))[1]),
            (U + r'(count|contains)\(', lambda g, st, a, rt, n: mk('m.has', mget(st, mo(a[0])), sget(g, st, a[1]))), (r'^std::__detail::operator!=', m_cmp(True)), (r'^std::__detail::operator==', m_cmp(False)),
            (r'^std::__detail::_Node_(const_)?iterator<.*>::operator(->|\*)', lambda g, st, a, rt, n: g.load(st, a[0], ir.PTR))]
    # ---------------------------------------------------------------- what the driver gives
    H = {}
    def the_arg(g, st, a, rt, n):
        k = a[0]
        if k not in H:
            o = H[k] = g.new_obj('opt%d' % k, 32, 'input'); st.wcells(o)[0] = (Z, mk('in', 'opt%d' % k, 's'))
        return P(H[k], 0)
    def the_argv(g, st, a, rt, n):
        v = g.new_obj('argv', 8 * 8, 'input')
        for k in range(6):
            o = g.new_obj('arg%d' % k, None, 'input'); args[o] = mk('in', 'arg%d' % k, 's'); st.wcells(v)[8 * k] = (8, P(o, 0))
        return P(v, 0)
    argc = [0]
    def named(nm):
        def h(g, st, a, rt, n):
            o = g.new_obj(nm, 32, 'input'); st.wcells(o)[0] = (Z, mk('in', nm, 's')); return P(o, 0)
        return h
    state = {}
    def filled(g, st, a, rt, n): state['map'] = mget(st, mo(a[0])); state['pc'] = st.pc
    icp = [(r'^the_arg$', the_arg), (r'^the_argv$', the_argv), (r'^the_argc$', lambda g, st, a, rt, n: argc[0]), (r'^the_name$', named('name')), (r'^the_key$', named('key')), (r'^filled$', filled)] + strings + convs + io + maps

    rng = c.rng
    def rnum(): return rng.choice(['%d' % rng.randrange(-10**6, 10**6), '%.12g' % (rng.uniform(-1, 1) * 10**rng.randrange(-8, 9)), '%d' % rng.randrange(2**31, 2**62), '0', '1', '-7e-3', '.5', '+3'])
    KEYS = ['mass', 'a', 'step_size', 'e0', 'file']
    def gen(name, typ, r):
        if name.startswith('line'):
            k, v = r.choice(KEYS), r.choice([rnum(), 'out.txt', 'a=b'])
            sp = lambda: r.choice(['', ' ', '  ', '\t'])
            D = state.get('divider', '='); C = state.get('comment', '#')
            return r.choice([sp() + k + sp() + D + sp() + v + sp()] * 5 + ['', '   ', C + ' ' + k + D + v, ' \t' + C + v, k + D, k + D + v + '\r'])
        if name == 'key': return r.choice(KEYS)
        if typ == 's': return rnum()
        return None

    def fresh():
        for d in (H, args, cs, its, found, state, E_['pieces'], E_['ext']): d.clear()
        del entries[:], got[:], vt[:], END[:], E_['opened'][:]
    def go(fn, nout=8, **kw):
        fresh(); old = vg.STRICT[0]; vg.STRICT[0] = True       # roundings to a narrower type stay visible
        try: return c.run(m, fn, nout, {}, intercepts=icp)
        finally: vg.STRICT[0] = old
    def base(t):
        """the text number behind a converted value"""
        while isinstance(t, T) and t.op in ('tofloat', 'zext', 'sext', 'trunc', 'fpext', 'fptrunc', 'fpcast', 'conv', 'rnd32', 'bits'): t = t.args[-1]
        return t
    WIDE = {'float': ('ffloat', 'fdouble', 'fldouble'), 'double': ('fdouble', 'fldouble'), 'ldouble': ('fldouble',), 'int': ('iint', 'ilong'), 'long': ('ilong',), 'llong': ('ilong',), 'ulong': ('iulong',), 'ullong': ('iulong',), 'bool': ('iint', 'ilong', 'iulong')}

    def cell(R, k, z=None):
        e = R.cells.get(k); return None if e is None else e[1]
    def same(kind, what, a, b, n=40):
        """two terms over texts agree"""
        bad = None; ok = 0
        for _ in range(n if not c.thorough else 10 * n):
            e = pit.Env(rng, gen)
            try: x, y = e.ev(a), e.ev(b)
            except (ArithmeticError, TypeError, ValueError, AttributeError, KeyError) as ex: c.undecided(kind, '%s: %r' % (what, ex)); return
            ok += 1
            if x != y: bad = (x, y, dict(e.vals)); break
        c.true(kind, what, bad is None, bad and 'it is %r, the text says %r, for %s' % (bad[0], bad[1], bad[2]), tloc(a))
        c.decided(kind, ok)

    # ---------------------------------------------------------------- conversions of an option
    def conversions(t):
        out = []; seen = set(); w = [t]
        while w:
            x = w.pop()
            if not isinstance(x, T) or x in seen: continue
            seen.add(x)
            if x.op == 'conv': out.append(x)
            w.extend(x.args)
        return out
    BITS = {'int': (32, 1), 'long': (64, 1), 'llong': (64, 1), 'ulong': (64, 0), 'ullong': (64, 0)}; FW = {'float': 1, 'double': 2, 'x86_fp80': 3, 'ldouble': 3, 'fp': 2}
    def passed(kind, what, v, cv, ty):
        """the converted number is delivered for every value of its type"""
        if ty in BITS:
            n, sg = BITS[ty]; bad = None
            for x in ([0, 1, 7, -1, -5, 2**(n - 1) - 1, -2**(n - 1), 2**(n // 2), 2**(n // 2 - 1), -2**(n // 2) - 3, 10**9 + 7] if sg else [0, 1, 2**n - 1, 2**(n - 1), 2**(n // 2) + 5]):
                e = pit.Env(rng, gen); e.memo[cv] = x & (1 << n) - 1
                try: r = int(e.ev(v)) & (1 << n) - 1
                except Exception as ex: c.undecided(kind, '%s: %r' % (what, ex)); return
                if r != x & (1 << n) - 1: bad = (x, vg.sgn(r, n) if sg else r); break
            c.true(kind, what + ': the number is passed on as it is', bad is None, bad and '%d becomes %d' % bad, tloc(v))
        else:
            w = v; low = None
            while w is not cv and isinstance(w, T) and w.op in ('fpcast', 'tofloat', 'fptrunc', 'fpext', 'rnd32', 'bits'):
                if w.op == 'fpcast' and FW.get(w.args[0], 9) < FW[ty]: low = w.args[0]
                w = w.args[-1]
            c.true(kind, what + ': the number is passed on as it is', w is cv and low is None, 'it is rounded to %s' % low if low else 'it is %s' % (vg.show(v, 4) if isinstance(v, T) else v), tloc(v))
    opt = mk('in', 'opt0', 's')
    for pre in ('to_', 'as_'):
        for ty in ('float', 'double', 'ldouble', 'int', 'long', 'llong', 'ulong', 'ullong', 'bool', 'string', 'cstr'):
            fn = pre + ty
            if fn not in m.funcs: continue
            R = go(fn); what = ('conversion of an option to ' if pre == 'to_' else 'as<>: an option as ') + ty
            if not c.usable(R, 'conversion', what): continue
            v = cell(R, 0)
            if ty in ('string', 'cstr'):
                if isinstance(v, P): v = cs.get(v.obj)
                if v is None: c.undecided('conversion', what + ': no text delivered'); continue
                same('conversion', what, v, opt); continue
            cv = conversions(v)
            if not c.true('conversion', what + ': the text is converted', len(cv) == 1, 'the value is %s' % (vg.show(v, 4) if isinstance(v, T) else v)): continue
            c.true('conversion', what + ': no digit is lost', cv[0].args[0] in WIDE[ty], 'it is read as %s' % cv[0].args[0][1:], tloc(v))
            same('conversion', what + ': the number of the text', cv[0].args[1], mk('s.int' if WIDE[ty][0][0] == 'i' else 's.fp', opt))
            if ty == 'bool':
                for x, want in ((0, 0), (1, 1), (2, 1), (3, 1), (-1, 1), (256, 1)):
                    e = pit.Env(rng, gen); e.memo[cv[0]] = x & 0xffffffff
                    try: r = e.ev(v)
                    except Exception as ex: c.undecided('conversion', '%s: %r' % (what, ex)); break
                    c.true('conversion', '%s: %d' % (what, x), int(r) & 255 == want, 'it is %s' % r)
            else:
                passed('conversion', what, v, cv[0], ty)
    # ---------------------------------------------------------------- the command line
    for fn, n in (('cmd1', 1), ('cmd3', 3), ('cmdt', 2), ('macro3', 3)):
        for d in (0, -1, 1, 2):
            argc[0] = n + 1 + d; R = go(fn); what = '%s with %d arguments' % ({'cmdt': 'plain variables', 'macro3': 'READ_CMD_LINE'}.get(fn, 'read_command_line'), n + d)
            if d:
                if R.und: c.undecided('count', '%s: %s' % (what, R.und))
                else: c.true('count', what + ' for %d' % n, R.dead, 'a wrong number of arguments is accepted')
                continue
            if not c.usable(R, 'order', what): continue
            for k in range(n):
                a = mk('in', 'arg%d' % (k + 1), 's')
                if fn in ('cmd1', 'cmd3'):
                    e = R.st.cells(H[k]).get(0) if k in H else None
                    if c.true('order', '%s: argument %d is stored' % (what, k + 1), e is not None and e[0] == Z, 'it is not'): same('order', '%s: argument %d' % (what, k + 1), e[1], a)
                else:
                    cv = conversions(cell(R, 8 * k))
                    if c.true('order', '%s: argument %d is stored' % (what, k + 1), len(cv) == 1, 'it is not'): same('order', '%s: argument %d' % (what, k + 1), cv[0].args[1], mk('s.int' if (fn, k) == ('cmdt', 0) else 's.fp', a))
    # ---------------------------------------------------------------- configuration files
    def meaning(e, D, C):
        out = {}
        for k in range(NL):
            s = ''.join(x for x in e.ev(mk('in', 'line%d' % k, 's')) if x not in SPACE)
            if not s or s[0] == C: continue
            if D in s: out[s[:s.index(D)]] = s[s.index(D) + 1:]
        return out
    for fn, D, C in (('load', '=', '#'), ('loadd', ':', '%'), ('loadc', ':', '%')):
        R = go(fn); what = 'a configuration file with %s and %s' % (D, C); state.update(divider=D, comment=C)
        if not c.usable(R, 'file', what): continue
        if 'map' not in state: c.undecided('file', what + ': the reader is not filled'); continue
        t = state['map']; bad = None; ok = 0
        for _ in range(2000 if c.thorough else 300):
            e = pit.Env(rng, gen)
            try: got_, want = e.ev(t), meaning(e, D, C)
            except (ArithmeticError, TypeError, ValueError, AttributeError, KeyError) as ex: c.undecided('file', '%s: %r' % (what, ex)); break
            ok += 1
            if got_ != want: bad = (got_, want, dict(e.vals)); break
        c.true('file', what, bad is None, bad and 'the settings are %r instead of %r for the lines %r' % bad); c.decided('file', ok)
        c.true('file', what + ': the file of the given name is read', len(E_['opened']) == 1 and (E_['opened'][0][0] is mk('in', 'name', 's') if fn != 'loadc' else E_['opened'][0][0] is mk('s.lit', 'the file')), 'it opens %s' % [vg.show(x[0]) for x in E_['opened']])
        for nm, mode, loc in E_['opened']: c.true('file', what + ': it is opened for reading only', isinstance(mode, int) and mode & 8 and not mode & (16 | 32 | 1), 'open mode %s: a file that may not be written cannot be read' % mode, loc)
    for fn, kind in (('get_double', 's.fp'), ('get_int', 's.int'), ('get_string', None)):
        R = go(fn); what = {'get_double': 'get<double>', 'get_int': 'get<int>', 'get_string': 'get<std::string>'}[fn]
        if not c.usable(R, 'get', what): continue
        v = cell(R, 0); mp_ = state['map']; key = mk('in', 'key', 's'); has = mk('m.has', mp_, key)
        cv = conversions(v) if kind else [None]
        if not c.true('get', what + ': the setting is converted', len(cv) == 1, 'the value is %s' % (vg.show(v, 4) if isinstance(v, T) else v)): continue
        if kind: c.true('get', what + ': no digit is lost', cv[0].args[0] in WIDE['double' if kind == 's.fp' else 'int'], 'it is read as %s' % cv[0].args[0][1:])
        if kind: passed('get', what, v, cv[0], 'double' if kind == 's.fp' else 'int')
        bad = None; ok = 0
        for _ in range(200):
            e = pit.Env(rng, gen)
            if not e.ev(has): continue
            x = e.ev(cv[0].args[1] if kind else v); s = word(meaning(e, '=', '#').get(e.ev(key), '\0'), 0)
            y = e.ev(mk('s.lit', s)) if not kind else pit.OPS[kind](s)
            ok += 1
            if x != y and not (not kind and not s): bad = (x, y, dict(e.vals)); break
        c.true('get', what + ': the value of the key', bad is None and ok, bad and 'it is %r instead of %r for %r' % bad); c.decided('get', ok)
        e_ok = 0                                       # an unknown key ends the program
        for _ in range(60):
            e = pit.Env(rng, gen)
            if e.ev(has): continue
            e_ok += 1
            if not c.true('get', what + ': an unknown key is refused', any(bool(e.ev(x)) != v for x, v in R.st.pc), 'the program goes on with an arbitrary value'): break
        if not e_ok: c.undecided('get', what + ': no unknown key drawn')
    return c.finish()


if __name__ == '__main__': main(run)
