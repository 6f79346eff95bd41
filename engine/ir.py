"""Reader for LLVM textual IR (clang 18).  Only what the analyses need: types with layout,
globals with initialisers, functions split into basic blocks with resolved operands, and debug
locations.  Function bodies are parsed on first use, so that a large module stays cheap."""
import re, struct
from fractions import Fraction

TOK = re.compile(r'''
   c"(?:[^"])*" | "(?:[^"])*" |
   %"[^"]*" | @"[^"]*" | %[-\w$.]+ | @[-\w$.]+ |
   \#dbg_\w+ | \#\d+ | ![\w.$-]* |
   0x[KLMHR]?[0-9A-Fa-f]+ | -?\d+\.\d+(?:[eE][-+]?\d+)? | -?\d+ |
   [A-Za-z_][\w.$-]* | \.\.\. | [()\[\]{}<>,=*:|]
''', re.X)


class Type:
    __slots__ = ('k', 'n', 'e', 'packed', '_sz', '_al', '_offs')

    def __init__(s, k, n=0, e=None, packed=False):
        s.k, s.n, s.e, s.packed = k, n, e, packed
        s._sz = s._al = s._offs = None

    def __repr__(s):
        if s.k == 'int': return 'i%d' % s.n
        if s.k in ('arr', 'vec'): return '%s[%d x %r]' % (s.k, s.n, s.e)
        if s.k == 'struct': return '{%s}' % ', '.join(map(repr, s.e))
        return s.k


INT = {}
def int_t(n):
    if n not in INT: INT[n] = Type('int', n)
    return INT[n]
PTR = Type('ptr'); VOID = Type('void'); DBL = Type('double'); FLT = Type('float')
FP80 = Type('fp80'); LABEL = Type('label'); META = Type('metadata')
BASE = {'ptr': PTR, 'void': VOID, 'double': DBL, 'float': FLT, 'x86_fp80': FP80, 'label': LABEL,
        'metadata': META, 'half': Type('half'), 'token': Type('token'), 'opaque': Type('opaque'),
        'fp128': Type('fp128')}


def align_up(x, a): return (x + a - 1) // a * a


def layout(t):
    if t._sz is not None: return
    k = t.k
    if k == 'int':
        b = (t.n + 7) // 8
        a = 1
        while a < b: a *= 2
        a = min(a, 16) if t.n == 128 else min(a, 8)
        t._al = a; t._sz = align_up(b, a)
    elif k == 'ptr': t._sz = t._al = 8
    elif k == 'double': t._sz = t._al = 8
    elif k == 'float': t._sz = t._al = 4
    elif k == 'half': t._sz = t._al = 2
    elif k in ('fp80', 'fp128'): t._sz = t._al = 16
    elif k == 'arr':
        layout(t.e); t._al = t.e._al; t._sz = t.e._sz * t.n
    elif k == 'vec':
        layout(t.e); t._sz = t.e._sz * t.n
        a = 1
        while a < t._sz: a *= 2
        t._al = a
    elif k == 'struct':
        o = 0; al = 1; offs = []
        for f in t.e:
            layout(f)
            if not t.packed:
                o = align_up(o, f._al); al = max(al, f._al)
            offs.append(o); o += f._sz
        t._offs = offs; t._al = al; t._sz = align_up(o, al) if not t.packed else o
    else:
        t._sz = 0; t._al = 1


def sizeof(t):
    layout(t); return t._sz


ATTR_PAREN = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype',
              'inalloca', 'preallocated', 'memory', 'allocsize', 'vscale_range', 'nofpclass', 'range', 'captures',
              'addrspace', 'initializes'}
ATTR = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'nocapture', 'readonly', 'readnone', 'writeonly',
        'returned', 'noalias', 'immarg', 'swiftself', 'nest', 'dead_on_unwind', 'writable', 'nofree', 'noreturn',
        'nounwind', 'tail', 'musttail', 'notail', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
        'nuw', 'nsw', 'exact', 'inbounds', 'volatile', 'atomic', 'disjoint', 'nneg', 'unnamed_addr',
        'local_unnamed_addr', 'dso_local', 'linkonce_odr', 'weak_odr', 'internal', 'private', 'external', 'hidden',
        'available_externally', 'weak', 'common', 'appending', 'linkonce', 'extern_weak', 'thread_local', 'fastcc',
        'coldcc', 'ccc', 'cc', 'protected', 'default', 'samesign'}


class Func:
    def __init__(s, name, header, body_lines, mod):
        s.name = name; s.header = header; s.lines = body_lines; s.mod = mod
        s._parsed = False; s.declared_only = body_lines is None
        s.params = []; s.blocks = {}; s.entry = None; s.rett = VOID; s.attrs = ''
        s._ipdom = None

    def parse(s):
        if not s._parsed:
            s._parsed = True
            FuncParser(s).run()
        return s


class P:
    """token cursor"""
    def __init__(s, text, mod):
        s.t = TOK.findall(text); s.i = 0; s.mod = mod

    def peek(s, k=0):
        j = s.i + k
        return s.t[j] if j < len(s.t) else None

    def next(s):
        v = s.t[s.i]; s.i += 1
        return v

    def accept(s, x):
        if s.i < len(s.t) and s.t[s.i] == x:
            s.i += 1; return True
        return False

    def expect(s, x):
        v = s.next()
        if v != x: raise SyntaxError('expected %s got %s in %s' % (x, v, ' '.join(s.t)[:300]))

    def skip_attrs(s):
        out = []
        while True:
            v = s.peek()
            if v in ATTR_PAREN:
                s.next(); 
                if s.peek() == '(':
                    d = 0; buf = []
                    while True:
                        w = s.next(); buf.append(w)
                        if w == '(': d += 1
                        elif w == ')':
                            d -= 1
                            if d == 0: break
                    out.append((v, buf))
                elif v == 'align': s.next()
            elif v in ATTR: s.next(); out.append((v, None))
            elif v is not None and (v.startswith('#') and not v.startswith('#dbg')): s.next()
            elif v == 'inrange': s.next(); s.skip_inrange()
            elif v == '!dbg': s.next(); s.next()
            elif v is not None and v.startswith('"'):
                s.next()
                if s.accept('='): s.next()
            else: return out

    def skip_inrange(s):
        if s.peek() == '(':
            while s.next() != ')': pass

    def type(s):
        v = s.next()
        if v in BASE: t = BASE[v]
        elif v[0] == 'i' and v[1:].isdigit(): t = int_t(int(v[1:]))
        elif v == '[':
            n = int(s.next()); s.expect('x'); e = s.type(); s.expect(']'); t = Type('arr', n, e)
        elif v == '<':
            if s.peek() == '{':
                s.next(); t = s._struct(True); s.expect('>')
            else:
                n = int(s.next()); s.expect('x'); e = s.type(); s.expect('>'); t = Type('vec', n, e)
        elif v == '{': t = s._struct(False)
        elif v[0] == '%': t = s.mod.named_type(v[1:])
        else: raise SyntaxError('type? %s in %s' % (v, ' '.join(s.t)[:300]))
        if s.peek() == 'addrspace': s.next(); s.next(); s.next(); s.next()
        return t

    def _struct(s, packed):
        e = []
        while not s.accept('}'):
            e.append(s.type()); s.accept(',')
        return Type('struct', 0, e, packed)

    def value(s, t):
        v = s.next()
        c = v[0]
        if c == '%': return ('reg', v[1:].strip('"') if v[1] == '"' else v[1:])
        if c == '@': return ('glob', v[1:].strip('"'))
        if v in ('true', 'false'): return ('int', 1 if v == 'true' else 0)
        if v == 'null': return ('int', 0)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'none': return ('undef',)
        if v == 'zeroinitializer': return ('zero',)
        if c == '!': return ('meta', v)
        if t.k in ('double', 'float', 'half', 'fp80', 'fp128'): return ('fp', parse_fp(v, t))
        if t.k == 'int':
            if re.fullmatch(r'-?\d+', v): return ('int', int(v) & ((1 << t.n) - 1))
        if v == '{' or v == '[' or (v == '<'):
            close = {'{': '}', '[': ']', '<': '>'}[v]
            packed = False
            if v == '<' and s.peek() == '{': s.next(); packed = True; close = '}'
            el = []
            while not s.accept(close):
                et = s.type(); el.append((et, s.value(et))); s.accept(',')
            if packed: s.expect('>')
            return ('agg', el)
        if c == 'c' and v[1:2] == '"': return ('bytes', parse_cstr(v[2:-1]))
        if v == 'getelementptr':
            s.skip_attrs(); s.expect('('); bt = s.type(); s.expect(',')
            ops = []
            while not s.accept(')'):
                s.skip_attrs()
                ot = s.type(); ops.append((ot, s.value(ot))); s.accept(',')
            return ('cgep', bt, ops)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            s.expect('('); ot = s.type(); o = s.value(ot); s.expect('to'); nt = s.type(); s.expect(')')
            return ('ccast', v, ot, o, nt)
        if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'icmp'):
            s.skip_attrs()
            pred = s.next() if v == 'icmp' else None
            s.expect('('); ot = s.type(); a = s.value(ot); s.expect(','); ot2 = s.type(); b = s.value(ot2); s.expect(')')
            return ('cbin', v, ot, a, b, pred)
        raise SyntaxError('value? %s (%r) in %s' % (v, t, ' '.join(s.t)[:400]))

    def tv(s):
        t = s.type()
        if t is META:
            # metadata operand: skip to , or )
            d = 0
            while s.peek() is not None and not (d == 0 and s.peek() in (',', ')')):
                w = s.next()
                if w in '([{': d += 1
                if w in ')]}': d -= 1
            return (META, ('meta', ''))
        s.skip_attrs()
        return (t, s.value(t))


def parse_fp(v, t):
    if v.startswith('0xK'):
        x = int(v[3:], 16); se = x >> 64; m = x & ((1 << 64) - 1)
        sign = -1 if se >> 15 else 1; e = se & 0x7fff
        if e == 0x7fff: return 'nan' if (m << 1) & ((1 << 64) - 1) else ('inf' if sign > 0 else '-inf')
        if m == 0: return Fraction(0)
        return sign * Fraction(m) * (Fraction(2) ** (e - 16383 - 63))
    if v.startswith('0x'):
        d = struct.unpack('>d', struct.pack('>Q', int(v[2:], 16)))[0]
    else:
        d = float(v)
    if d != d: return 'nan'
    if d in (float('inf'), float('-inf')): return 'inf' if d > 0 else '-inf'
    if d == 0 and struct.pack('>d', d)[0] & 0x80: return Fraction(0)  # -0.0 is 0 over the reals
    return Fraction(d)


def parse_cstr(x):
    out = bytearray(); i = 0
    while i < len(x):
        if x[i] == '\\':
            if x[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(x[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(x[i]) & 255); i += 1
    return bytes(out)


def split_dbg(line):
    m = re.search(r', !dbg !(\d+)', line)
    return int(m.group(1)) if m else None


class FuncParser:
    def __init__(s, f):
        s.f = f; s.mod = f.mod

    def run(s):
        f = s.f
        parse_header(f)
        if f.declared_only: return
        lines = f.lines
        cur = None
        first = True
        i = 0
        nparams = len(f.params)
        blocks = {}
        while i < len(lines):
            ln = lines[i]; i += 1
            st = ln.strip()
            if not st or st.startswith(';'): continue
            m = re.match(r'^("[^"]*"|[-\w$.]+):(\s|$)', ln)
            if m:
                cur = m.group(1).strip('"'); blocks[cur] = []
                if first: f.entry = cur; first = False
                continue
            if first:
                # unnamed entry: its number is the count of unnamed params
                cur = str(sum(1 for (t, n) in f.params if n.isdigit())); f.entry = cur; blocks[cur] = []; first = False
            # join continuation lines (switch, invoke, landingpad)
            if (' switch ' in ' ' + st or st.startswith('switch ')) and st.endswith('['):
                while ']' not in lines[i]:
                    st += ' ' + lines[i].strip(); i += 1
                st += ' ' + lines[i].strip(); i += 1
            elif re.search(r'(^|= )invoke ', st):
                st += ' ' + lines[i].strip(); i += 1
            elif re.search(r'= landingpad ', st):
                while i < len(lines) and re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                    st += ' ' + lines[i].strip(); i += 1
            ins = s.instr(st)
            if ins is not None: blocks[cur].append(ins)
        f.blocks = blocks
        f.lines = None

    def instr(s, st):
        dbg = split_dbg(st)
        # strip trailing metadata attachments
        cut = re.split(r', ![a-zA-Z_.]+ !', st, 1)[0]
        p = P(cut, s.mod)
        dest = None
        if p.peek() and p.peek()[0] == '%' and p.peek(1) == '=':
            d = p.next(); dest = d[1:].strip('"'); p.next()
        p.skip_attrs()
        op = p.next()
        if op.startswith('#dbg'): return None
        if op in BIN:
            p.skip_attrs(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return (op, dest, dbg, t, a, b)
        if op == 'fneg':
            p.skip_attrs(); t = p.type(); a = p.value(t)
            return (op, dest, dbg, t, a)
        if op in ('icmp', 'fcmp'):
            p.skip_attrs(); pred = p.next(); p.skip_attrs(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return (op, dest, dbg, pred, t, a, b)
        if op in CASTS:
            p.skip_attrs(); t, v = p.tv(); p.expect('to'); nt = p.type()
            return ('cast', dest, dbg, op, t, v, nt)
        if op == 'load':
            p.skip_attrs(); t = p.type(); p.expect(','); _, a = p.tv()
            return ('load', dest, dbg, t, a)
        if op == 'store':
            p.skip_attrs(); t, v = p.tv(); p.expect(','); _, a = p.tv()
            return ('store', None, dbg, t, v, a)
        if op == 'alloca':
            p.skip_attrs(); t = p.type(); n = ('int', 1)
            if p.accept(','):
                if p.peek() != 'align':
                    _, n = p.tv()
            return ('alloca', dest, dbg, t, n)
        if op == 'getelementptr':
            p.skip_attrs(); t = p.type(); ops = []
            while p.accept(','): ops.append(p.tv())
            return ('gep', dest, dbg, t, ops)
        if op == 'phi':
            p.skip_attrs(); t = p.type(); inc = []
            while p.accept('['):
                v = p.value(t); p.expect(','); b = p.next()[1:].strip('"'); p.expect(']'); p.accept(',')
                inc.append((v, b))
            return ('phi', dest, dbg, t, inc)
        if op == 'select':
            p.skip_attrs(); ct, c = p.tv(); p.expect(','); t, a = p.tv(); p.expect(','); _, b = p.tv()
            return ('select', dest, dbg, c, t, a, b, ct)
        if op == 'br':
            if p.peek() == 'label':
                p.next(); return ('br', None, dbg, p.next()[1:].strip('"'))
            _, c = p.tv(); p.expect(','); p.expect('label'); a = p.next()[1:].strip('"'); p.expect(',')
            p.expect('label'); b = p.next()[1:].strip('"')
            return ('condbr', None, dbg, c, a, b)
        if op == 'switch':
            t, v = p.tv(); p.expect(','); p.expect('label'); d = p.next()[1:].strip('"'); p.expect('[')
            cases = []
            while not p.accept(']'):
                ct, cv = p.tv(); p.expect(','); p.expect('label'); cases.append((cv[1], p.next()[1:].strip('"')))
            return ('switch', None, dbg, t, v, d, cases)
        if op == 'ret':
            if p.peek() == 'void': return ('ret', None, dbg, None, None)
            t, v = p.tv()
            return ('ret', None, dbg, t, v)
        if op == 'unreachable': return ('unreachable', None, dbg)
        if op == 'resume': return ('unreachable', None, dbg)
        if op in ('call', 'invoke'):
            p.skip_attrs(); rt = p.type()
            if p.peek() == '(':  # function type
                d = 0
                while True:
                    w = p.next()
                    if w == '(': d += 1
                    elif w == ')':
                        d -= 1
                        if d == 0: break
            if p.peek() == 'asm': return ('unknown', dest, dbg, 'asm', rt)
            callee = p.value(PTR); p.expect('(')
            args = []
            while not p.accept(')'):
                t = p.type()
                if t is META:
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        w = p.next()
                        if w in ('(', '[', '{'): d += 1
                        if w in (')', ']', '}'): d -= 1
                    args.append((META, ('meta', '')))
                else:
                    at = p.skip_attrs()
                    args.append((t, p.value(t)) + ((at,) if any(a[0] == 'byval' for a in at) else ()))
                p.accept(',')
            if op == 'call': return ('call', dest, dbg, rt, callee, args)
            while p.peek() not in ('to',): p.next()
            p.next(); p.expect('label'); n = p.next()[1:].strip('"'); p.expect('unwind'); p.expect('label')
            u = p.next()[1:].strip('"')
            return ('invoke', dest, dbg, rt, callee, args, n, u)
        if op == 'extractvalue':
            t, v = p.tv(); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return ('extractvalue', dest, dbg, t, v, idx)
        if op == 'insertvalue':
            t, v = p.tv(); p.expect(','); t2, v2 = p.tv(); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return ('insertvalue', dest, dbg, t, v, v2, idx, t2)
        if op == 'extractelement':
            t, v = p.tv(); p.expect(','); it, iv = p.tv()
            return ('extractelement', dest, dbg, t, v, iv)
        if op == 'insertelement':
            t, v = p.tv(); p.expect(','); t2, v2 = p.tv(); p.expect(','); it, iv = p.tv()
            return ('insertelement', dest, dbg, t, v, v2, iv)
        if op == 'shufflevector':
            t, v = p.tv(); p.expect(','); t2, v2 = p.tv(); p.expect(','); mt, m = p.tv()
            return ('shufflevector', dest, dbg, t, v, v2, mt, m)
        if op == 'freeze':
            t, v = p.tv(); return ('freeze', dest, dbg, t, v)
        if op == 'landingpad': return ('landingpad', dest, dbg)
        if op == 'fence': return None
        if op in ('cmpxchg', 'atomicrmw', 'va_arg'):
            if op == 'atomicrmw':
                p.skip_attrs(); o = p.next(); _, a = p.tv(); p.expect(','); t, v = p.tv()
                return ('atomicrmw', dest, dbg, o, a, t, v)
            return ('unknown', dest, dbg, op, VOID)
        raise SyntaxError('instr %s' % st[:200])


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub',
       'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}


def parse_header(f):
    h = f.header
    m = re.search(r'@("[^"]*"|[-\w$.]+)\(', h)
    pre = h[:m.start()]
    p = P(pre, f.mod)
    p.next()  # define / declare
    p.skip_attrs()
    f.rett = p.type()
    f.linkage = 'linkonce' if 'linkonce' in pre else 'internal' if ('internal' in pre or 'private' in pre) else \
        'available_externally' if 'available_externally' in pre else 'weak' if ' weak' in pre else 'external'
    rest = h[m.end():]
    p = P(rest, f.mod)
    params = []; k = 0
    while not p.accept(')'):
        if p.accept('...'): continue
        t = p.type(); at = p.skip_attrs()
        nm = None
        if p.peek() and p.peek()[0] == '%': nm = p.next()[1:].strip('"')
        if nm is None: nm = str(k); 
        if nm.isdigit(): k = int(nm) + 1
        params.append((t, nm)); p.accept(',')
    f.params = params
    f.attrs = rest
    m = re.search(r'#(\d+)', rest)
    f.attrgroup = int(m.group(1)) if m else None
    m = re.search(r'!dbg !(\d+)', rest)
    f.dbg = int(m.group(1)) if m else None


class Module:
    def __init__(s, path):
        s.path = path
        s.types = {}; s.type_src = {}; s.globals_src = {}; s.globals = {}; s.funcs = {}; s.md_src = {}
        s.attr_src = {}
        s.ctors = None
        with open(path) as fh: lines = fh.read().split('\n')
        i = 0; n = len(lines)
        while i < n:
            ln = lines[i]; i += 1
            if not ln: continue
            c = ln[0]
            if c == 'd' and ln.startswith('define '):
                j = i
                while lines[j] != '}': j += 1
                nm = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln).group(1).strip('"')
                s.funcs[nm] = Func(nm, ln, lines[i:j], s)
                i = j + 1
            elif c == 'd' and ln.startswith('declare '):
                nm = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln).group(1).strip('"')
                if nm not in s.funcs: s.funcs[nm] = Func(nm, ln, None, s)
            elif c == '%':
                m = re.match(r'%("[^"]*"|[-\w$.]+) = type (.*)', ln)
                s.type_src[m.group(1).strip('"')] = m.group(2)
            elif c == '@':
                m = re.match(r'@("[^"]*"|[-\w$.]+) = (.*)', ln)
                s.globals_src[m.group(1).strip('"')] = m.group(2)
            elif c == '!':
                m = re.match(r'!(\d+) = (?:distinct )?(.*)', ln)
                if m: s.md_src[int(m.group(1))] = m.group(2)
            elif c == 'a' and ln.startswith('attributes #'):
                m = re.match(r'attributes #(\d+) = \{(.*)\}', ln)
                s.attr_src[int(m.group(1))] = m.group(2)
        s._dem = None

    def named_type(s, n):
        n = n.strip('"')
        if n not in s.types:
            src = s.type_src.get(n, 'opaque')
            if src == 'opaque': s.types[n] = BASE['opaque']
            else:
                t = Type('struct', 0, [])
                s.types[n] = t
                q = P(src, s).type()
                t.k, t.n, t.e, t.packed = q.k, q.n, q.e, q.packed
        return s.types[n]

    def noreturn(s, f):
        a = f.attrs + ' ' + s.attr_src.get(f.attrgroup, '')
        return 'noreturn' in a

    def global_init(s, n):
        """-> (type, init value or None, is_const)"""
        if n not in s.globals:
            src = s.globals_src[n]
            src = re.split(r', (?:align|comdat|section|!|partition|code_model)', src, 1)[0]
            src = re.sub(r',? ?comdat(\([^)]*\))?$', '', src)
            p = P(src, s)
            ext = False
            tl = False
            while p.peek() not in ('global', 'constant', 'alias', 'ifunc'):
                w = p.next()
                if w in ('external', 'extern_weak'): ext = True
                if w == 'thread_local': tl = True
            kind = p.next()
            t = p.type()
            v = None
            if kind in ('alias', 'ifunc'): v = None
            elif not ext and p.peek() is not None and p.peek() not in (',',): v = p.value(t)
            s.globals[n] = (t, v, kind == 'constant', tl)
        return s.globals[n]

    def demangle(s):
        if s._dem is None:
            import subprocess
            names = list(s.funcs) + list(s.globals_src)
            out = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(names), text=True,
                                 capture_output=True, check=True).stdout.split('\n')
            s._dem = dict(zip(names, out))
        return s._dem

    # ---- debug info
    def md_field(s, n, field):
        src = s.md_src.get(n, '')
        m = re.search(r'\b%s: (?:!(\d+)|"([^"]*)"|(\d+))' % field, src)
        if not m: return None
        if m.group(1) is not None: return int(m.group(1))
        if m.group(2) is not None: return m.group(2)
        return int(m.group(3))

    def loc(s, dbg):
        """(file, line) of a debug location number"""
        if dbg is None: return None
        src = s.md_src.get(dbg, '').replace('distinct ', '').lstrip('!')
        if not src.startswith('DILocation') and not src.startswith('DISubprogram'): return None
        line = s.md_field(dbg, 'line')
        sc = dbg if src.startswith('DISubprogram') else s.md_field(dbg, 'scope')
        for _ in range(50):
            if sc is None: return ('?', line)
            f = s.md_field(sc, 'file')
            if f is not None:
                return (s.md_field(f, 'filename'), line)
            sc = s.md_field(sc, 'scope')
        return ('?', line)
