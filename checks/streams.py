"""standard streams as recorded effects: what is written is logged as ('num', value) or ('txt', characters); what is read are fresh leaves read[0], read[1], .."""
from hx import *
from vg import Fn


def chars(g, st, p, n=None):
    s = ''
    for k in range(n if n is not None else 4096):
        b = g.load(st, P(p.obj, p.off + k), ir.int_t(8))
        if not isinstance(b, int): raise Undecided('text that is not constant')
        if n is None and b == 0: break
        s += chr(b)
    return s


class Log:
    """what each stream received: per token kind, value, the stream, its number format at that moment, the path condition under which it is written, the type of a floating-point value"""
    def __init__(s): s.tok = []; s.fmt = {}; s.used = []; s.cur = None

    def append(s, tv): s.tok.append((tv[0], tv[1], s.cur[0], s.fmt.get(s.cur[0], ('default', 6)), s.cur[1], s.cur[2]))

    def wrap(s, h):
        def w(g, st, a, rt, name):
            s.cur = (a[0].obj, st.pc, next((w for w in ('float', 'long double', 'double') if re.search(r'[(<]%s[)>]' % w, g.dem.get(name, name))), None)); return h(g, st, a, rt, name)
        return w


def formats(log):
    """streams with a number format of their own; files opened by name; the position of an empty file is 0"""
    vt = []
    def vptr(g, st, o, off=0):
        if not vt:
            v = g.new_obj('vtable', 64, 'input'); vt.append(v)
        st.wcells(vt[0])[8] = (8, 248)
        st.wcells(o)[off] = (8, P(vt[0], 32))
    def user(g, st, a, rt, n):
        for o in log.used:
            if o[0] == ('user', a[0]): return P(o[1], 0)
        o = g.new_obj('stream%s' % a[0], 512, 'input'); log.used.append((('user', a[0]), o)); vptr(g, st, o); return P(o, 0)
    def ctor(g, st, a, rt, n):
        vptr(g, st, a[0].obj, a[0].off)
        s, mode = a[1], a[2] if len(a) > 2 else None
        d = g.load(st, s, ir.PTR) if 'string' in n or 'basic_string' in g.dem.get(n, n).split('(', 1)[1] else s
        log.used.append((('file', chars(g, st, d)), a[0].obj)); log.fmt[a[0].obj] = ('default', 6); return None
    def mani(g, st, a, rt, n):
        f = a[1].name if isinstance(a[1], Fn) else None
        if f is None: raise Undecided('a manipulator that is not constant')
        k = next((w for w in ('scientific', 'fixed', 'hexfloat', 'defaultfloat') if f.startswith('_ZSt%d%s' % (len(w), w))), None)
        if k: log.fmt[a[0].obj] = (k, log.fmt.get(a[0].obj, ('default', 6))[1])
        return a[0]
    def setprec(g, st, a, rt, n):
        v = a[1][0] if isinstance(a[1], tuple) else a[1]
        if not isinstance(v, int): raise Undecided('a precision that is not constant')
        log.fmt[a[0].obj] = (log.fmt.get(a[0].obj, ('default', 6))[0], v); return a[0] if rt.k == 'ptr' else None
    def prec(g, st, a, rt, n):
        if len(a) == 1: return log.fmt.get(a[0].obj, ('default', 6))[1]
        setprec(g, st, a, ir.VOID if hasattr(ir, 'VOID') else rt, n); return 6
    def setf(g, st, a, rt, n):
        k, p = log.fmt.get(a[0].obj, ('default', 6)); old = {'default': 0, 'fixed': 4, 'scientific': 256, 'hexfloat': 260}[k]
        if not all(isinstance(x, int) for x in a[1:]): raise Undecided('format flags that are not constant')
        new = (old & ~a[2]) | (a[1] & a[2]) if len(a) > 2 else old | a[1]
        log.fmt[a[0].obj] = ({0: 'default', 4: 'fixed', 256: 'scientific', 260: 'hexfloat'}[new & 260], p); return old
    def tellp(g, st, a, rt, n):
        n = sum(1 for t in log.tok if t[2] is a[0].obj)
        return (4096 * n, 0)
    fs = r'^std::(?:__cxx11::)?basic_[io]?fstream<.*>::'
    return [(r'^the_stream$', user), (r'^std::basic_o?fstream<.*>::basic_o?fstream\(', ctor), (fs + r'is_open', lambda g, st, a, rt, n: 1), (fs + r'~', lambda g, st, a, rt, n: None),
            (r'^std::(?:basic_ostream<.*>|ostream)::operator<<\((?:std::ios_base& \(\*|std::basic_ios<.*>& \(\*)', mani), (r'std::operator<<.*std::_Setprecision\)$', setprec),
            (r'^std::ios_base::precision\(', prec), (r'^std::ios_base::setf\(', setf), (r'^std::(?:basic_ostream<.*>|ostream)::tellp\(', tellp),
            (r'^std::(?:basic_ostream<.*>|ostream)::flush\(', lambda g, st, a, rt, n: a[0]), (r'^std::basic_ios<.*>::(?:operator!|fail|bad)\b', lambda g, st, a, rt, n: 0), (r'^std::basic_ios<.*>::(?:operator bool|good)\b', lambda g, st, a, rt, n: 1)
            ] + [(rx, log.wrap(h)) for rx, h in streams(log)] + [(r'^std::_Sp_counted_base<.*>::_M_release\(', lambda g, st, a, rt, n: None)]


def streams(log, reads=None):
    nread = [0]

    def num(g, st, a, rt, name):
        log.append(('num', a[1])); return a[0]

    def chr_(g, st, a, rt, name):
        if not isinstance(a[1], int): raise Undecided('a character that is not constant')
        log.append(('txt', chr(a[1] & 255))); return a[0]

    def cstr(g, st, a, rt, name):
        log.append(('txt', chars(g, st, a[1]))); return a[0]

    def cstrn(g, st, a, rt, name):
        if not isinstance(a[2], int): raise Undecided('text of unknown length')
        log.append(('txt', chars(g, st, a[1], a[2]))); return a[0]

    def string(g, st, a, rt, name):
        d = g.load(st, a[1], ir.PTR); n = g.load(st, P(a[1].obj, a[1].off + 8), ir.int_t(64))
        log.append(('txt', chars(g, st, d, n))); return a[0]

    def rd(sz):
        def h(g, st, a, rt, name):
            v = mk('in', 'read[%d]' % nread[0], 'f'); nread[0] += 1
            w = st.wcells(a[1].obj); w[a[1].off] = (sz, v)
            return a[0]
        return h
    O = r'std::(?:ostream|basic_ostream<char(?:, std::char_traits<char> ?)?>)'
    I = r'std::(?:istream|basic_istream<char(?:, std::char_traits<char> ?)?>)'
    return [(O + r'::(?:operator<<\(|_M_insert<)(?:float|double|long double|int|unsigned int|long|unsigned long|bool|short|unsigned short)\b', num),
            (r'std::operator<< ?<.*>\(%s ?&, (?:char|signed char|unsigned char)\)' % O, chr_),
            (r'std::operator<< ?<.*>\(%s ?&, (?:char const\*)\)' % O, cstr),
            (r'std::(?:basic_ostream<.*>|ostream) ?& std::__ostream_insert<|^std::__ostream_insert<', cstrn),
            (r'std::operator<< ?<.*>\(%s ?&, std::(?:__cxx11::)?(?:basic_)?string' % O, string),
            (I + r'::(?:operator>>\(|_M_extract<)(?:double)', rd(8)), (I + r'::(?:operator>>\(|_M_extract<)(?:float)', rd(4))]
