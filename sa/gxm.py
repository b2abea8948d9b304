"""Models of the external functions the generator uses, for gx.Engine.

Only what is not present as IR (libc, iostream, filesystem) plus std::regex, fs::path and put_time
is modelled; strings, containers and algorithms are analysed from their own code.
"""
import re
from gx import *
from gx import PUSHED
import gxre

EOF = 0xffffffff
NPOS = (1 << 64) - 1

# ---------------------------------------------------------------- helpers
def lit(s):
    return list(s.encode('latin1') if isinstance(s, str) else s)

def vis(cells):
    """printable form of a cell list"""
    out = ''
    for c in cells:
        if type(c) is int: out += chr(c)
        elif c[0] == 'c': out += '<%s>' % (c[1] if c[2] is IDT or c[2] == IDT else c[1] + "'")
        else: out += '<?%s>' % (c[1],)
    return out

def concrete(cells):
    try: return bytes(cells)
    except Exception: return None

def pstr(E, st, p):
    """cells of the std::string object at p"""
    d = E.load(st, p, 8); n = E.load(st, ('p', p[1], p[2] + 8), 8)
    n = E.concretize(st, n)
    if type(n) is not int: raise Undecided('opaque string length')
    return E.read_bytes(st, d, n)

def mkstr(E, st, p, cells):
    """construct a std::string at p"""
    n = len(cells)
    o = p[2]
    if n < 16:
        E.store(st, p, 8, ('p', p[1], o + 16))
        E.write_bytes(st, ('p', p[1], o + 16), list(cells) + [0])
    else:
        q = st.alloc(n + 1, 'new')
        E.write_bytes(st, q, list(cells) + [0])
        E.store(st, p, 8, q)
        E.store(st, ('p', p[1], o + 16), 8, n)
    E.store(st, ('p', p[1], o + 8), 8, n)

def delstr(E, st, p):
    d = E.load(st, p, 8)
    if type(d) is tuple and d[0] == 'p' and not (d[1] == p[1] and d[2] == p[2] + 16):
        release(E, st, d, 'new')

def setstr(E, st, p, cells):
    cells = list(cells)
    delstr(E, st, p); mkstr(E, st, p, cells)

def mkcstr(E, st, s, kind='ext'):
    c = lit(s) if not isinstance(s, list) else s
    p = st.alloc(len(c) + 1, kind)
    E.write_bytes(st, p, c + [0])
    return p

def release(E, st, p, kind):
    if p == 0: return
    if type(p) is not tuple or p[0] != 'p': raise Undecided('release of an opaque pointer')
    r = st.mem.get(p[1])
    if r is None or r.kind in ('loc', 'glob', 'ext'):
        E.report(st, 'bad-free', 'memory that was not allocated is released'); raise End('fault')
    if r.kind == 'freed':
        E.report(st, 'double-free', 'memory is released twice'); raise End('fault')
    if p[2] != 0 or r.kind != kind:
        E.report(st, 'bad-free', 'memory is released through a different pointer or allocator'); raise End('fault')
    r = Region(r.size, 'freed', UNDEF, r.name, st.own)
    st.mem[p[1]] = r

def throw_std(E, st, ty, msg):
    obj = st.alloc(64, 'exc', 0)
    E.store(st, obj, 8, ('p', '@VT:exc', 0))
    m = mkcstr(E, st, msg)
    E.store(st, ('p', obj[1], 8), 8, m)
    raise Throw(ty, obj)

def asint(E, st, v):
    v = E.concretize(st, v)
    if type(v) is not int: raise Undecided('opaque size')
    return v

# ---------------------------------------------------------------- streams
class Stream:
    __slots__ = ('kind', 'path', 'open', 'fail', 'state', 'data', 'size')
    def __init__(self, kind, size): self.kind = kind; self.path = None; self.open = False; self.fail = False; self.state = 'C'; self.data = None; self.size = size
    def copy(self):
        s = Stream(self.kind, self.size)
        s.path = self.path; s.open = self.open; s.fail = self.fail; s.state = self.state; s.data = self.data
        return s

def flat(cons):
    ch = []
    while cons is not None:
        ch.append(cons[1]); cons = cons[0]
    out = []
    for c in reversed(ch): out.extend(c)
    return out

def sites(cons):
    """[(start, where)] of the pieces"""
    ch = []
    while cons is not None:
        ch.append((len(cons[1]), cons[2])); cons = cons[0]
    out = []; n = 0
    for l, w in reversed(ch):
        out.append((n, w)); n += l
    return out

OFS_IOS, SS_IOS, OS_IOS = 248, 128, 8
STD_STREAMS = {'@_ZSt4cout': ('cout', 272), '@_ZSt4cerr': ('cerr', 272), '@_ZSt4clog': ('cerr', 272)}

def find_stream(E, st, p):
    if type(p) is not tuple or p[0] != 'p': raise Undecided('stream through an opaque pointer')
    rid, off = p[1], p[2]
    if rid in STD_STREAMS:
        k = ('S', rid, 0)
        if k not in st.X:
            s = Stream(*STD_STREAMS[rid]); s.open = True; st.X[k] = s
        return k
    E.region(st, p, 'stream')
    for (b, sz) in st.X.get(('R', rid), ()):
        if b <= off < b + sz: return ('S', rid, b)
    raise Undecided('unknown stream object')

def reg_stream(E, st, p, kind, size):
    s = Stream(kind, size)
    st.X[('S', p[1], p[2])] = s
    st.X[('R', p[1])] = tuple(x for x in st.X.get(('R', p[1]), ()) if x[0] != p[2]) + ((p[2], size),)
    return s

def upd(st, k):
    s = st.X[k].copy(); st.X[k] = s
    return s

def emit(E, st, p, cells):
    k = find_stream(E, st, p)
    s = upd(st, k)
    cells = list(cells)
    for c in cells:
        if c == UNDEF: E.report(st, 'uninit', 'uninitialised memory is written to the output'); break
    w = E.where(st) if s.kind != 'ss' else None
    if s.kind == 'file' and not s.open:
        s.fail = True     # writing to a stream that is not open loses the data
        if cells: event(st, 'lost', s.path, 'closed')
    s.data = (s.data, cells, w)
    if cells and s.kind != 'cerr': s.state = 'D'
    if s.kind == 'file' and s.open and s.path is not None:
        st.X[('F', s.path)] = (st.X.get(('F', s.path)), cells, w)
    return p

def event(st, *e):
    st.X['ev'] = st.X.get('ev', ()) + (e,)

def faults(st): return st.X.get('faults', ())

def stream_fail(E, st, p):
    k = find_stream(E, st, p); s = st.X[k]
    if s.fail: return 1
    if s.kind == 'ss': return 0
    if s.kind == 'cerr':
        # standard error may be closed or full at any time: asked once
        if s.data is None or st.X.get('cerr-state'): return 0
        c = E.choose(st, 2, 'write error on standard error')
        st.X['cerr-state'] = True
        if not c: return 0
        upd(st, k).fail = True; return 1
    if s.state in ('D', 'F') and 'write' in faults(st):
        c = E.choose(st, 2, 'write error on %s' % (vis(s.path) if s.path else s.kind))
        s = upd(st, k)
        if c:
            s.fail = True; event(st, 'fault', 'write'); return 1
        if s.state == 'F': s.state = 'C'
    elif s.state == 'F':
        s = upd(st, k); s.state = 'C'
    return 0

def m_flush(E, st, a, ins):
    k = find_stream(E, st, a[0]); s = upd(st, k)
    if s.state == 'D': s.state = 'F'
    return a[0]

def m_fail(E, st, a, ins): return stream_fail(E, st, a[0])
def m_good(E, st, a, ins): return 1 - stream_fail(E, st, a[0])

def m_setstate(E, st, a, ins):
    k = find_stream(E, st, a[0])
    if a[1] != 0: upd(st, k).fail = True

def m_clear(E, st, a, ins):
    k = find_stream(E, st, a[0])
    # an error that happened in an earlier flush is forgotten
    if a[1] == 0 and st.X[k].state == 'F' and not st.X[k].fail: stream_fail(E, st, a[0])
    s = upd(st, k); s.fail = a[1] not in (0,)
    if a[1] == 0 and s.state == 'F': s.state = 'C'

def m_ofs_ctor(E, st, a, ins):
    reg_stream(E, st, a[0], 'file', 512)
    E.store(st, a[0], 8, ('p', '@VT:ofs', 32))

def fskey(cells): return tuple(cells)

def fs_state(E, st, path, why):
    """state of a path: absent | file | dir | link | dlink"""
    k = ('fs', fskey(path))
    v = st.X.get(k)
    if v is None:
        opts = st.X.get('fsopts', ('absent',))
        v = opts[E.choose(st, len(opts), '%s is' % vis(path))]
        st.X[k] = v
    return v

def do_open(E, st, p, path):
    k = find_stream(E, st, p)
    key = fskey(path)
    known = st.X.get(('fs', key))
    if 'openw' in faults(st) and E.choose(st, 2, 'open of %s fails' % vis(path)):
        s = upd(st, k); s.fail = True
        event(st, 'openw', key, known, False); event(st, 'fault', 'open')
        return
    if known is None:
        # nobody looked at the path: it may be anything
        known = 'unchecked'
    event(st, 'openw', key, known, True)
    s = upd(st, k)
    if s.open: s.fail = True; return
    if s.data is not None and (s.state != 'C' or s.fail): event(st, 'lost', s.path, s.state)
    s.data = None
    s.open = True; s.path = key; s.state = 'C'; s.fail = False if known != 'dir' else True
    st.X[('fs', key)] = 'file'
    st.X[('F', key)] = None
    event(st, 'created', key)

def m_ofs_open_c(E, st, a, ins): do_open(E, st, a[0], E.cstr(st, a[1]))
def m_ofs_open_s(E, st, a, ins): do_open(E, st, a[0], pstr(E, st, a[1]))
def m_ofs_ctor_c(E, st, a, ins):
    m_ofs_ctor(E, st, a, ins); do_open(E, st, a[0], E.cstr(st, a[1]))
def m_ofs_ctor_s(E, st, a, ins):
    m_ofs_ctor(E, st, a, ins); do_open(E, st, a[0], pstr(E, st, a[1]))
def m_ofs_isopen(E, st, a, ins): return 1 if st.X[find_stream(E, st, a[0])].open else 0

def m_ofs_close(E, st, a, ins):
    k = find_stream(E, st, a[0]); s = upd(st, k)
    if not s.open: s.fail = True; return
    s.open = False
    event(st, 'close', s.path, s.state)
    if s.state in ('D', 'C'): s.state = 'F'

def m_ofs_dtor(E, st, a, ins):
    k = find_stream(E, st, a[0]); s = st.X[k]
    if s.open or s.state != 'C' or s.fail:
        if s.data is not None and (s.state != 'C' or s.fail): event(st, 'lost', s.path, s.state)
    st.X.pop(k, None)
    st.X[('R', a[0][1])] = tuple(x for x in st.X.get(('R', a[0][1]), ()) if x[0] != a[0][2])

def m_out_cstr(E, st, a, ins):
    if a[1] == 0:
        upd(st, find_stream(E, st, a[0])).fail = True; return a[0]
    return emit(E, st, a[0], pad(E, st, a[0], E.cstr(st, a[1])))
def m_out_char(E, st, a, ins):
    c = a[1]
    if type(c) is tuple and c[0] == 'undef': E.report(st, 'uninit', 'uninitialised character is printed')
    return emit(E, st, a[0], pad(E, st, a[0], [c & 255 if type(c) is int else c]))
def m_out_str(E, st, a, ins): return emit(E, st, a[0], pad(E, st, a[0], pstr(E, st, a[1])))
def m_out_write(E, st, a, ins): return emit(E, st, a[0], E.read_bytes(st, a[1], asint(E, st, a[2])))
def out_int(bits, signed):
    def m(E, st, a, ins):
        v = a[1]
        if type(v) is int:
            v &= (1 << bits) - 1; b = st.X.get(('base',) + find_stream(E, st, a[0]), 'dec')
            if bits == 8: t = {'boolalpha': ('false', 'true')}.get(st.X.get(('flag',) + find_stream(E, st, a[0])), '01')[v & 1]
            else: t = '%x' % v if b == 'hex' else '%o' % v if b == 'oct' else str(sgn(v, bits) if signed else v)
            return emit(E, st, a[0], pad(E, st, a[0], lit(t)))
        if v == UNDEF: E.report(st, 'uninit', 'uninitialised value is printed')
        v = E.concretize(st, v)
        if type(v) is int: return m(E, st, [a[0], v], ins)
        return emit(E, st, a[0], [('u', 'nd:%s' % (v[1] if v[0] == 'u' else v[0],))])
    return m
def m_out_nd(E, st, a, ins): return emit(E, st, a[0], [('u', 'nd:' + str(a[1][1] if type(a[1]) is tuple and len(a[1]) > 1 else 'value'))])
def m_out_puttime(E, st, a, ins): return emit(E, st, a[0], [('u', 'nd:time')])

def m_manip(E, st, a, ins):
    f = a[1]
    if type(f) is tuple and f[0] == 'f':
        if '4endl' in f[1]:
            emit(E, st, a[0], [10]); return m_flush(E, st, a, ins)
        if '5flush' in f[1]: return m_flush(E, st, a, ins)
    raise Undecided('stream manipulator')
def m_endl(E, st, a, ins):
    emit(E, st, a[0], [10]); return m_flush(E, st, a, ins)

def m_ss_ctor(E, st, a, ins):
    reg_stream(E, st, a[0], 'ss', 392).open = True
    E.store(st, a[0], 8, ('p', '@VT:ss', 32))
    E.store(st, ('p', a[0][1], a[0][2] + 16), 8, ('p', '@VT:ss2', 32))
def m_oss_ctor(E, st, a, ins):
    reg_stream(E, st, a[0], 'ss', 376).open = True
    E.store(st, a[0], 8, ('p', '@VT:oss', 32))
def m_ss_str(E, st, a, ins):
    mkstr(E, st, a[0], flat(st.X[find_stream(E, st, a[1])].data))
def m_ss_dtor(E, st, a, ins):
    k = find_stream(E, st, a[0]); st.X.pop(k, None)
    st.X[('R', a[0][1])] = tuple(x for x in st.X.get(('R', a[0][1]), ()) if x[0] != a[0][2])

# ---------------------------------------------------------------- memory
def m_new(E, st, a, ins):
    n = asint(E, st, a[0])
    if n > 1 << 40: throw_std(E, st, '_ZTISt9bad_alloc', 'std::bad_alloc')
    return st.alloc(n, 'new')
def m_delete(E, st, a, ins): release(E, st, a[0], 'new')
def m_newa(E, st, a, ins): return st.alloc(asint(E, st, a[0]), 'newa')
def m_deletea(E, st, a, ins): release(E, st, a[0], 'newa')
def m_malloc(E, st, a, ins):
    n = asint(E, st, a[0])
    if 'malloc' in faults(st) and E.choose(st, 2, 'malloc fails'): return 0
    return st.alloc(n, 'malloc')
def m_calloc(E, st, a, ins):
    n = asint(E, st, a[0]) * asint(E, st, a[1])
    if 'malloc' in faults(st) and E.choose(st, 2, 'calloc fails'): return 0
    return st.alloc(n, 'malloc', 0)
def m_free(E, st, a, ins): release(E, st, a[0], 'malloc')
def m_realloc(E, st, a, ins):
    n = asint(E, st, a[1])
    if 'malloc' in faults(st) and E.choose(st, 2, 'realloc fails'): return 0
    q = st.alloc(n, 'malloc')
    if a[0] != 0:
        r = E.region(st, a[0], 'realloc')
        E.memcpy(st, q, ('p', a[0][1], 0), min(n, r.size))
        release(E, st, a[0], 'malloc')
    return q

# ---------------------------------------------------------------- strings
def m_strlen(E, st, a, ins): return len(E.cstr(st, a[0]))

def cmp_cells(E, st, x, y):
    """compare two cells -> 0 equal, 1 different"""
    return 0 if E.cmp(st, 'eq', x, y, 8) else 1

def lt_cells(E, st, x, y): return E.cmp(st, 'ult', x, y, 8)

def cmp_lists(E, st, xs, ys):
    """memcmp/strcmp order of two NUL extended lists"""
    for x, y in zip(xs, ys):
        if x == y: continue
        if type(x) is int and type(y) is int: return 1 if x > y else 0xffffffff
        if not E.cmp(st, 'eq', x, y, 8):
            return 0xffffffff if lt_cells(E, st, x, y) else 1
    return 0

UP = tuple(c - 32 if 97 <= c <= 122 else c for c in range(256))
LO = tuple(c + 32 if 65 <= c <= 90 else c for c in range(256))

def fold(E, st, cells):
    return [LO[c] if type(c) is int else E.un(st, c, lambda x: LO[x & 255]) if c[0] == 'c' else c for c in cells]

def lazy_cstr(E, st, p, n=None):
    """like cstr but stops after n characters"""
    if n is None: return E.cstr(st, p)
    out = []
    for k in range(n):
        c = E.load(st, ('p', p[1], p[2] + k), 1)
        if type(c) is tuple:
            if c[0] == 'c':
                if E.decide(st, c[1], [x == 0 for x in c[2]]): return out
            elif c[0] == 'undef':
                E.report(st, 'uninit', 'uninitialised memory is read as a string'); raise End('fault')
        elif c == 0: return out
        out.append(c)
    return out

def m_strcmp_(foldit, bounded):
    def m(E, st, a, ins):
        n = asint(E, st, a[2]) if bounded else None
        if bounded:
            # compare character by character: strings need not be terminated behind a difference
            for k in range(n):
                E.region(st, a[0], 'string'); E.region(st, a[1], 'string')
                x = E.load(st, ('p', a[0][1], a[0][2] + k), 1); y = E.load(st, ('p', a[1][1], a[1][2] + k), 1)
                if x == UNDEF or y == UNDEF:
                    E.report(st, 'uninit', 'uninitialised memory is compared'); raise End('fault')
                if foldit: x, y = fold(E, st, [x, y])
                if x != y and not E.cmp(st, 'eq', x, y, 8):
                    return 0xffffffff if lt_cells(E, st, x, y) else 1
                if E.cmp(st, 'eq', x, 0, 8): return 0
            return 0
        xs = E.cstr(st, a[0]); ys = E.cstr(st, a[1])
        if foldit: xs = fold(E, st, xs); ys = fold(E, st, ys)
        return cmp_lists(E, st, xs + [0], ys + [0])
    return m

def m_memcmp(E, st, a, ins):
    n = asint(E, st, a[2])
    xs = E.read_bytes(st, a[0], n); ys = E.read_bytes(st, a[1], n)
    for x in xs + ys:
        if x == UNDEF: E.report(st, 'uninit', 'uninitialised memory is compared'); raise End('fault')
    return cmp_lists(E, st, xs, ys)

def charset(E, st, ins, p, xs, c):
    """position of the symbolic character c in the concrete bytes xs: one decision whether it is
    there at all; where, only if the caller looks at more than that"""
    t = {}
    for k, x in enumerate(xs): t.setdefault(x, k)
    if not E.decide(st, c[1], [v in t for v in c[2]]): return 0
    if ins and ins.get('nullonly'): return ('p', p[1], p[2])
    k = E.concretize(st, E.un(st, c, lambda v: t.get(v, 0)))
    return ('p', p[1], p[2] + k)

def m_memchr(E, st, a, ins):
    n = asint(E, st, a[2]); c = a[1] & 255 if type(a[1]) is int else E.un(st, a[1], lambda x: x & 255)
    xs = E.read_bytes(st, a[0], n) if n else []
    return find_char(E, st, ins, a[0], xs, c)

def find_char(E, st, ins, p, xs, c):
    if type(c) is int:
        for k, x in enumerate(xs):
            if type(x) is int:
                if x == c: return ('p', p[1], p[2] + k)
            elif E.cmp(st, 'eq', x, c, 8): return ('p', p[1], p[2] + k)
        return 0
    if type(c) is tuple and c[0] == 'c' and xs and all(type(x) is int for x in xs): return charset(E, st, ins, p, xs, c)
    for k, x in enumerate(xs):
        if E.cmp(st, 'eq', x, c, 8): return ('p', p[1], p[2] + k)
    return 0

def m_traits_find(E, st, a, ins):
    n = asint(E, st, a[1])
    c = E.load(st, a[2], 1)
    return find_char(E, st, ins, a[0], E.read_bytes(st, a[0], n) if n else [], c)

def m_strchr(E, st, a, ins):
    xs = E.cstr(st, a[0]) + [0]
    c = a[1] & 255 if type(a[1]) is int else E.un(st, a[1], lambda x: x & 255) if type(a[1]) is tuple and a[1][0] == 'c' else a[1]
    return find_char(E, st, ins, a[0], xs, c)

def m_strrchr(E, st, a, ins):
    xs = E.cstr(st, a[0]) + [0]
    c = a[1] & 255
    for k in range(len(xs) - 1, -1, -1):
        if E.cmp(st, 'eq', xs[k], c, 8): return ('p', a[0][1], a[0][2] + k)
    return 0

def m_strstr(E, st, a, ins):
    xs = E.cstr(st, a[0]); ys = E.cstr(st, a[1])
    for k in range(len(xs) - len(ys) + 1):
        if all(E.cmp(st, 'eq', x, y, 8) for x, y in zip(xs[k:], ys)): return ('p', a[0][1], a[0][2] + k)
    return 0

_cls = {
    'isalnum': lambda c: chr(c).isalnum() and c < 128, 'isalpha': lambda c: chr(c).isalpha() and c < 128,
    'isdigit': lambda c: 48 <= c <= 57, 'isspace': lambda c: c in (32, 9, 10, 11, 12, 13), 'isupper': lambda c: 65 <= c <= 90,
    'islower': lambda c: 97 <= c <= 122, 'ispunct': lambda c: 33 <= c <= 126 and not chr(c).isalnum(), 'isprint': lambda c: 32 <= c <= 126,
    'isgraph': lambda c: 33 <= c <= 126, 'iscntrl': lambda c: c < 32 or c == 127, 'isxdigit': lambda c: chr(c) in '0123456789abcdefABCDEF', 'isblank': lambda c: c in (32, 9),
}
def ctype_arg(E, st, v, name):
    if v == UNDEF: E.report(st, 'uninit', 'uninitialised character'); raise End('fault')
    if type(v) is int: vals = [v]
    elif v[0] == 'c': vals = [v[2][i] for i in bits_of(E.mask(st, v[1]))]
    else: raise Undecided('opaque character')
    for x in vals:
        if x > 255 and x != EOF:
            E.report(st, 'ctype-range', '%s() is called with a value outside of unsigned char and EOF' % name)
            raise End('fault')
def m_is(name):
    f = _cls[name]; T = [1 if f(c) else 0 for c in range(256)]
    def m(E, st, a, ins):
        ctype_arg(E, st, a[0], name)
        g = lambda x: T[x] if x < 256 else 0
        return g(a[0]) if type(a[0]) is int else E.un(st, a[0], g)
    return m
def m_to(name, tab):
    def m(E, st, a, ins):
        ctype_arg(E, st, a[0], name)
        g = lambda x: tab[x] if x < 256 else x
        return g(a[0]) if type(a[0]) is int else E.un(st, a[0], g)
    return m
def m_ctype_b_loc(E, st, a, ins): return ('p', '@ctype_b_ptr', 0)

def fmt_cells(E, st, fmt, args):
    out = []; k = 0; i = 0
    f = concrete(fmt)
    if f is None: raise Undecided('opaque format string')
    f = f.decode('latin1')
    while i < len(f):
        c = f[i]
        if c != '%': out.append(ord(c)); i += 1; continue
        m = re.compile(r'%([-+ 0#]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z)?(.)').match(f, i)
        if not m: raise Undecided('format')
        i = m.end(); cv = m.group(5)
        if cv == '%': out.append(37); continue
        if k >= len(args): E.report(st, 'format', 'format string needs more arguments than given'); raise End('fault')
        v = args[k]; k += 1
        if cv == 's':
            cs = E.cstr(st, v)
            if m.group(3): cs = cs[:int(m.group(3))]
            out += cs
        elif cv in 'di': out += lit(str(sgn(v & 0xffffffff, 32))) if type(v) is int else [('u', 'nd:fmt')]
        elif cv in 'uxX': 
            if type(v) is int: out += lit(('%' + (m.group(1) or '') + (m.group(2) or '') + cv.replace('u', 'd')) % v)
            else:
                spec_ = '%' + (m.group(1) or '') + (m.group(2) or '') + cv.replace('u', 'd')
                if type(v) is tuple and v[0] == 'c':
                    ms = bits_of(E.mask(st, v[1])); tx = {i: spec_ % v[2][i] for i in ms}
                    ln = {len(x) for x in tx.values()}
                    if len(ln) == 1:
                        for q in range(ln.pop()): out.append(E.simp(st, ('c', v[1], tuple(ord(tx[i][q]) if i in tx else 0 for i in range(256)))))
                        continue
                v = E.concretize(st, v)
                out += lit(('%' + (m.group(1) or '') + (m.group(2) or '') + cv.replace('u', 'd')) % v) if type(v) is int else [('u', 'nd:fmt')]
        elif cv == 'c': out.append(v & 255 if type(v) is int else v)
        else: raise Undecided('format')
    return out

def m_snprintf(E, st, a, ins):
    n = asint(E, st, a[1]); out = fmt_cells(E, st, E.cstr(st, a[2]), a[3:])
    if n:
        w = out[:n - 1] + [0]
        E.check(st, a[0], n, 'write')
        E.write_bytes(st, a[0], w)
    return len(out)
def m_fprintf(E, st, a, ins):
    out = fmt_cells(E, st, E.cstr(st, a[1]), a[2:])
    if a[0] == ('p', '@FILE:stderr', 0): emit(E, st, ('p', '@_ZSt4cerr', 0), out)
    else: emit(E, st, ('p', '@_ZSt4cout', 0), out)
    return len(out)
def m_fwrite(E, st, a, ins):
    n = asint(E, st, a[1]) * asint(E, st, a[2])
    out = E.read_bytes(st, a[0], n)
    emit(E, st, ('p', '@_ZSt4cerr' if a[3] == ('p', '@FILE:stderr', 0) else '@_ZSt4cout', 0), out)
    return a[2]

# ---------------------------------------------------------------- FILE
def m_fopen(E, st, a, ins):
    path = E.cstr(st, a[0]); key = bytes(x if type(x) is int else 63 for x in path)
    mode = concrete(E.cstr(st, a[1])) or b''
    if mode[:1] != b'r':
        known = st.X.get(('fs', fskey(path)))
        event(st, 'openw', fskey(path), known or 'unchecked', True)
    files = st.X.get('files', {})
    event(st, 'fopen', fskey(path))
    if 'fopen' in faults(st) and E.choose(st, 2, 'fopen %s fails' % vis(path)):
        event(st, 'fault', 'fopen'); return 0
    if fskey(path) in files: data = files[fskey(path)]
    elif key in files: data = files[key]
    else:
        event(st, 'fault', 'fopen'); return 0
    if data is None:
        event(st, 'fault', 'fopen'); return 0
    n = st.X.get('nfp', 0) + 1; st.X['nfp'] = n
    p = st.alloc(216, 'FILE', 0)
    st.X[('fp', p[1])] = (data, 0, False, False)
    st.X['fopen'] = st.X.get('fopen', ()) + (key,)
    return p
def fp_key(E, st, p):
    E.region(st, p, 'stream')
    k = ('fp', p[1])
    if k not in st.X:
        if p[1] == '@FILE:stdin': st.X[k] = (st.X.get('stdin', b''), 0, False, False)
        else: raise Undecided('unknown FILE')
    return k
def m_fgetc(E, st, a, ins):
    k = fp_key(E, st, a[0]); data, pos, eof, err = st.X[k]
    if 'fread' in faults(st) and pos in (0, len(data) // 2, len(data)) and not st.X.get('readerr'):
        if E.choose(st, 2, 'read error'):
            st.X[k] = (data, pos, eof, True); st.X['readerr'] = True; event(st, 'fault', 'read'); return EOF
    if err: return EOF
    if pos >= len(data):
        st.X[k] = (data, pos, True, err); return EOF
    c = data[pos]
    st.X[k] = (data, pos + 1, eof, err)
    return c
def m_fread(E, st, a, ins):
    k = fp_key(E, st, a[3]); data, pos, eof, err = st.X[k]
    n = asint(E, st, a[1]) * asint(E, st, a[2])
    if 'fread' in faults(st) and not st.X.get('readerr'):
        if E.choose(st, 2, 'read error'):
            st.X[k] = (data, pos, eof, True); st.X['readerr'] = True; event(st, 'fault', 'read'); return 0
    part = list(data[pos:pos + n])
    E.check(st, a[0], n, 'write')
    E.write_bytes(st, a[0], part)
    st.X[k] = (data, pos + len(part), eof or len(part) < n, err)
    return len(part) // max(1, asint(E, st, a[1]))
def m_ferror(E, st, a, ins): return 1 if st.X[fp_key(E, st, a[0])][3] else 0
def m_feof(E, st, a, ins): return 1 if st.X[fp_key(E, st, a[0])][2] else 0
def m_clearerr(E, st, a, ins):
    k = fp_key(E, st, a[0]); d = st.X[k]; st.X[k] = (d[0], d[1], False, False)
def m_fclose(E, st, a, ins):
    k = fp_key(E, st, a[0])
    r = st.mem.get(a[0][1])
    if r is not None and r.kind == 'FILE':
        st.mem[a[0][1]] = Region(r.size, 'freed', UNDEF, '', st.own)
    return 0

# ---------------------------------------------------------------- exceptions
def m_alloc_exc(E, st, a, ins): return st.alloc(asint(E, st, a[0]), 'exc', 0)
def m_free_exc(E, st, a, ins): return None
def m_throw(E, st, a, ins):
    ty = a[1][1][1:] if type(a[1]) is tuple and a[1][0] == 'p' else '?'
    raise Throw(ty, a[0])
def m_begin_catch(E, st, a, ins):
    e = st.exc.pop() if st.exc else (None, a[0])
    st.caught.append(e)
    event(st, 'catch', e[0])
    return a[0]
def m_end_catch(E, st, a, ins):
    if st.caught: st.caught.pop()
def m_rethrow(E, st, a, ins):
    if not st.caught: raise End('abort', 'rethrow without exception')
    e = st.caught[-1]
    raise Throw(e[0], e[1])
def m_rt_ctor_s(E, st, a, ins):
    m = mkcstr(E, st, pstr(E, st, a[1]))
    E.store(st, a[0], 8, ('p', '@VT:exc', 0)); E.store(st, ('p', a[0][1], a[0][2] + 8), 8, m)
def m_rt_ctor_c(E, st, a, ins):
    m = mkcstr(E, st, E.cstr(st, a[1]))
    E.store(st, a[0], 8, ('p', '@VT:exc', 0)); E.store(st, ('p', a[0][1], a[0][2] + 8), 8, m)
def m_rt_copy(E, st, a, ins):
    E.store(st, a[0], 8, ('p', '@VT:exc', 0)); E.store(st, ('p', a[0][1], a[0][2] + 8), 8, E.load(st, ('p', a[1][1], a[1][2] + 8), 8))
def m_what(E, st, a, ins): return E.load(st, ('p', a[0][1], a[0][2] + 8), 8)
def m_exit(E, st, a, ins): raise End('exit', a[0])
def m_abort(E, st, a, ins): raise End('abort', 'terminate')
def m_throw_lib(ty, msg):
    def m(E, st, a, ins): throw_std(E, st, ty, msg)
    return m

def m_throw_length(E, st, a, ins):
    E.report(st, 'length', 'a string or list longer than any possible one is asked for')
    throw_std(E, st, '_ZTISt12length_error', 'length_error')

# ---------------------------------------------------------------- filesystem
def fs_err(E, st, what):
    event(st, 'fault', 'fs')
    throw_std(E, st, '_ZTINSt10filesystem7__cxx1116filesystem_errorE', 'filesystem error: ' + what)
FT = {'absent': 0xff, 'file': 1, 'dir': 2, 'link': 3, 'dlink': 3}
def status_val(E, ins, t):
    ty = ins.get('ty', '')
    v = FT[t] | (0xffff << 32)
    if ty.startswith('{'): return ('a', [FT[t], 0xffff])
    return v
def m_symlink_status(E, st, a, ins, follow=False):
    n = 0
    if ins.get('sret'): n = 1
    path = pstr(E, st, a[n])
    if 'fs' in faults(st) and E.choose(st, 2, 'status fails'): fs_err(E, st, 'status')
    t = fs_state(E, st, path, 'status')
    event(st, 'status', fskey(path), follow)
    if follow: t = {'link': 'file', 'dlink': 'absent'}.get(t, t)
    if n: E.store(st, a[0], 1, FT[t]); E.store(st, ('p', a[0][1], a[0][2] + 4), 4, 0xffff); return None
    return status_val(E, ins, t)
def m_status(E, st, a, ins): return m_symlink_status(E, st, a, ins, True)
def m_fs_remove(E, st, a, ins):
    path = pstr(E, st, a[0])
    if 'fs' in faults(st) and E.choose(st, 2, 'remove fails'): fs_err(E, st, 'cannot remove')
    t = fs_state(E, st, path, 'remove')
    if t == 'dir' and E.choose(st, 2, 'directory is not empty'): fs_err(E, st, 'cannot remove: Directory not empty')
    event(st, 'remove', fskey(path), t)
    st.X[('fs', fskey(path))] = 'absent'
    return 0 if t == 'absent' else 1
def m_mkdirs(E, st, a, ins):
    path = pstr(E, st, a[0])
    if 'fs' in faults(st) and E.choose(st, 2, 'create_directories fails'): fs_err(E, st, 'cannot create directories')
    t = fs_state(E, st, path, 'mkdir')
    event(st, 'mkdir', fskey(path), t)
    if t in ('file', 'dlink'): fs_err(E, st, 'cannot create directories: Not a directory')
    if t == 'absent': st.X[('fs', fskey(path))] = 'dir'; return 1
    return 0
def m_nop(E, st, a, ins): return None
def m_zero8(E, st, a, ins): E.store(st, a[0], 8, 0)
def m_path_assign(E, st, a, ins):
    if a[0] != a[1]: setstr(E, st, a[0], pstr(E, st, a[1]))
    return a[0]
def split_name(E, st, cells):
    """index of the file name part"""
    k = len(cells)
    while k > 0:
        if E.cmp(st, 'eq', cells[k - 1], 47, 8): break
        k -= 1
    return k
def ext_index(E, st, cells):
    """index of the extension's dot in cells or None"""
    b = split_name(E, st, cells)
    name = cells[b:]
    if not name: return None
    dots = [i for i, c in enumerate(name) if E.cmp(st, 'eq', c, 46, 8)]
    if not dots or (len(dots) == len(name) and len(name) <= 2): return None
    if dots[-1] == 0: return None
    return b + dots[-1]
def mkpath(E, st, p, cells):
    mkstr(E, st, p, cells); E.store(st, ('p', p[1], p[2] + 32), 8, 0)
def m_path_filename(E, st, a, ins):
    c = pstr(E, st, a[1]); mkpath(E, st, a[0], c[split_name(E, st, c):])
def m_path_extension(E, st, a, ins):
    c = pstr(E, st, a[1]); k = ext_index(E, st, c); mkpath(E, st, a[0], c[k:] if k is not None else [])
def m_path_stem(E, st, a, ins):
    c = pstr(E, st, a[1]); k = ext_index(E, st, c); b = split_name(E, st, c); mkpath(E, st, a[0], c[b:k] if k is not None else c[b:])
def m_path_parent(E, st, a, ins):
    c = pstr(E, st, a[1]); b = split_name(E, st, c)
    while b > 1 and E.cmp(st, 'eq', c[b - 1], 47, 8): b -= 1
    mkpath(E, st, a[0], c[:b])
def m_path_replace_ext(E, st, a, ins):
    c = pstr(E, st, a[0]); e = pstr(E, st, a[1]); k = ext_index(E, st, c)
    if k is not None: c = c[:k]
    if e and not E.cmp(st, 'eq', e[0], 46, 8): e = [46] + e
    setstr(E, st, a[0], c + e)
    return a[0]
def m_path_replace_filename(E, st, a, ins):
    c = pstr(E, st, a[0]); e = pstr(E, st, a[1]); setstr(E, st, a[0], c[:split_name(E, st, c)] + e); return a[0]
def m_path_append(E, st, a, ins):
    c = pstr(E, st, a[0]); e = pstr(E, st, a[1])
    if e and E.cmp(st, 'eq', e[0], 47, 8): r = e
    elif c and not E.cmp(st, 'eq', c[-1], 47, 8): r = c + [47] + e
    else: r = c + e
    setstr(E, st, a[0], r); return a[0]
def m_path_compare(E, st, a, ins):
    # (paths that differ only in repeated separators do not occur here)
    xs = pstr(E, st, a[0]); ys = pstr(E, st, a[1])
    return cmp_full(E, st, xs, ys)
def cmp_full(E, st, xs, ys):
    r = cmp_lists(E, st, xs, ys)
    if r: return r
    return 0 if len(xs) == len(ys) else 1 if len(xs) > len(ys) else 0xffffffff

# ---------------------------------------------------------------- regex
def re_key(p): return ('re', p[1], p[2])
def m_re_ctor_c(E, st, a, ins): st.X[re_key(a[0])] = concrete(E.cstr(st, a[1])); st.X[('ref',) + re_key(a[0])[1:]] = a[2] if len(a) > 2 and type(a[2]) is int else 0
def m_re_ctor_s(E, st, a, ins): st.X[re_key(a[0])] = concrete(pstr(E, st, a[1])); st.X[('ref',) + re_key(a[0])[1:]] = a[2] if len(a) > 2 and type(a[2]) is int else 0
def m_re_dtor(E, st, a, ins): st.X.pop(re_key(a[0]), None)
def re_get(E, st, p):
    k = st.X.get(re_key(p))
    if k is None: raise Undecided('regular expression')
    E.rxused.setdefault((k, st.X.get(('ref',) + re_key(p)[1:], 0)), E.where(st))
    try: return gxre.compile(k)
    except gxre.Unsupported as e: raise Undecided('regular expression %r' % (k,))
def fill_match(E, st, m, base, spans, cells, n0, n1):
    """fill a std::match_results object at m; base: pointer to the first character"""
    n = len(spans)
    it = lambda k: ('p', base[1], base[2] + k)
    b = E.load(st, m, 8)
    if b != 0 and type(b) is tuple and b[0] == 'p': release(E, st, b, 'new')
    q = st.alloc(24 * (n + 3), 'new', 0)
    def sub(k, x, y, ok):
        E.store(st, ('p', q[1], 24 * k), 8, it(x)); E.store(st, ('p', q[1], 24 * k + 8), 8, it(y)); E.store(st, ('p', q[1], 24 * k + 16), 1, ok)
    for k, s in enumerate(spans):
        if s is None or s[0] < 0: sub(k, n1, n1, 0)
        else: sub(k, s[0], s[1], 1)
    sub(n, n1, n1, 0)
    if n: sub(n + 1, n0, spans[0][0], 1 if spans[0][0] != n0 else 0); sub(n + 2, spans[0][1], n1, 1 if spans[0][1] != n1 else 0)
    E.store(st, m, 8, q); E.store(st, ('p', m[1], m[2] + 8), 8, ('p', q[1], 24 * (n + 3))); E.store(st, ('p', m[1], m[2] + 16), 8, ('p', q[1], 24 * (n + 3)))
    E.store(st, ('p', m[1], m[2] + 24), 8, base)
def do_match(E, st, rx, cells, search):
    return rx.match(cells, lambda c, tab: E.decide(st, c[1], [tab[x & 255] for x in c[2]]), search)
def re_common(E, st, a, dem, search):
    # forms: (string, match_results&, regex, flags) (char const*, ..) (it, it, match_results&, regex, flags) and those without results
    args = dem[dem.index('(') + 1:]
    k = 0
    if 'std::__cxx11::basic_string<' in args.split(',')[0]:
        base = E.load(st, a[0], 8); cells = pstr(E, st, a[0]); k = 1
    elif args.startswith('char const*') and not args.startswith('char const*, char const*'):
        base = a[0]; cells = E.cstr(st, a[0]); k = 1
    else:
        base = a[0]
        if not (type(a[0]) is tuple and a[0][0] == 'p' and type(a[1]) is tuple and a[0][1] == a[1][1]): raise Undecided('regex iterators')
        cells = E.read_bytes(st, a[0], a[1][2] - a[0][2]); k = 2
    for c in cells:
        if type(c) is tuple and c[0] != 'c': raise Undecided('opaque text in regex')
    has = 'match_results<' in args
    m = a[k] if has else None
    rx = re_get(E, st, a[k + 1 if has else k])
    spans = do_match(E, st, rx, cells, search)
    if has: fill_match(E, st, m, base, spans or [], cells, 0, len(cells))
    return 1 if spans else 0
def m_re_match(dem):
    def m(E, st, a, ins): return re_common(E, st, a, dem, False)
    return m
def m_re_search(dem):
    def m(E, st, a, ins): return re_common(E, st, a, dem, True)
    return m
def re_sub(E, st, rx, cells, fmt):
    out = []; pos = 0; n = len(cells)
    lits = concrete(cells); fl = concrete(fmt)
    if lits is not None and fl is not None:
        return lit(rx.sub(lits, fl))
    if lits is not None and getattr(rx, 'py', None) is not None:
        for m in rx.py.finditer(lits):
            out += lits[pos:m.start()]
            k = 0
            while k < len(fmt):
                if fmt[k] == 36 and k + 1 < len(fmt) and type(fmt[k + 1]) is int and (fmt[k + 1] in (36, 38) or 48 <= fmt[k + 1] <= 57):
                    d = fmt[k + 1]; k += 2
                    if d == 36: out.append(36)
                    elif d == 38: out += m.group(0)
                    else:
                        g = d - 48
                        if k < len(fmt) and type(fmt[k]) is int and 48 <= fmt[k] <= 57: g = g * 10 + fmt[k] - 48; k += 1
                        if g <= rx.py.groups and m.group(g) is not None: out += m.group(g)
                    continue
                out.append(fmt[k]); k += 1
            pos = m.end()
        return out + list(lits[pos:])
    while pos <= n:
        sp = rx.match(cells, lambda c, tab: E.decide(st, c[1], [tab[x & 255] for x in c[2]]), True, pos)
        if not sp: break
        out += cells[pos:sp[0][0]]
        k = 0
        while k < len(fmt):
            if fmt[k] == 36 and k + 1 < len(fmt) and type(fmt[k + 1]) is int:
                d = fmt[k + 1]
                if d == 36: out.append(36); k += 2; continue
                if d == 38: out += cells[sp[0][0]:sp[0][1]]; k += 2; continue
                if 48 <= d <= 57:
                    g = d - 48; k += 2
                    if k < len(fmt) and type(fmt[k]) is int and 48 <= fmt[k] <= 57: g = g * 10 + fmt[k] - 48; k += 1
                    if g < len(sp) and sp[g] is not None and sp[g][0] >= 0: out += cells[sp[g][0]:sp[g][1]]
                    continue
            out.append(fmt[k]); k += 1
        if sp[0][1] == sp[0][0]:
            if sp[0][1] < n: out.append(cells[sp[0][1]])
            pos = sp[0][1] + 1
        else: pos = sp[0][1]
    out += cells[pos:]
    return out
def m_re_replace(dem):
    args = dem[dem.index('>(') + 2:] if '>(' in dem else dem[dem.index('(') + 1:]
    def m(E, st, a, ins):
        # string regex_replace(string|char const*, regex, string|char const*, flags)
        parts = _split_args(args)
        src = pstr(E, st, a[1]) if 'basic_string<' in parts[0] else E.cstr(st, a[1])
        rx = re_get(E, st, a[2])
        fmt = pstr(E, st, a[3]) if 'basic_string<' in parts[2] else E.cstr(st, a[3])
        if not (ins.get('sret')) or 'basic_regex' not in parts[1]: raise Undecided('regex_replace form')
        mkstr(E, st, a[0], re_sub(E, st, rx, src, fmt))
    return m
def _split_args(s):
    out = []; d = 0; cur = ''
    for c in s:
        if c in '<(': d += 1
        if c in '>)':
            d -= 1
            if d < 0: break
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    out.append(cur.strip())
    return out

# ---------------------------------------------------------------- misc
def m_time(E, st, a, ins):
    if a[0] != 0: E.store(st, a[0], 8, ('u', 'nd:time'))
    event(st, 'time')
    return ('u', 'nd:time')
def m_localtime_r(E, st, a, ins):
    if 'time' in faults(st) and E.choose(st, 2, 'localtime_r fails'): return 0
    E.write_bytes(st, a[1], [('u', 'nd:tm')] * 56)
    return a[1]
def m_guard_acquire(E, st, a, ins): return 0 if E.load(st, a[0], 1) == 1 else 1
def m_guard_release(E, st, a, ins): E.store(st, a[0], 1, 1)
def m_ret0(E, st, a, ins): return 0
def m_errno(E, st, a, ins): return ('p', '@errno_loc', 0)
def m_list_hook(E, st, a, ins):
    # this, position: insert this before position
    prev = E.load(st, ('p', a[1][1], a[1][2] + 8), 8)
    E.store(st, a[0], 8, a[1]); E.store(st, ('p', a[0][1], a[0][2] + 8), 8, prev)
    E.store(st, prev, 8, a[0]); E.store(st, ('p', a[1][1], a[1][2] + 8), 8, a[0])
def m_list_unhook(E, st, a, ins):
    nx = E.load(st, a[0], 8); pv = E.load(st, ('p', a[0][1], a[0][2] + 8), 8)
    E.store(st, pv, 8, nx); E.store(st, ('p', nx[1], nx[2] + 8), 8, pv)
def m_nd(name):
    def m(E, st, a, ins):
        event(st, 'nd', name)
        return ('u', 'nd:' + name)
    return m
def m_getenv(E, st, a, ins):
    event(st, 'nd', 'getenv')
    if E.choose(st, 2, 'getenv'): return 0
    p = st.alloc(3, 'ext'); E.write_bytes(st, p, [('c', 'env', IDT), ('u', 'nd:getenv'), 0]); return p
def m_getcwd(E, st, a, ins):
    event(st, 'nd', 'getcwd')
    mkpath(E, st, a[0], [47, ('u', 'nd:cwd')])
def m_fs_absolute(E, st, a, ins):
    event(st, 'nd', 'getcwd')
    c = pstr(E, st, a[1])
    mkpath(E, st, a[0], c if c and c[0] == 47 else [47, ('u', 'nd:cwd'), 47] + c)

# ---------------------------------------------------------------- string accelerators (same effect as the library code)
def m_s_copy(E, st, a, ins): mkstr(E, st, a[0], pstr(E, st, a[1]))
def m_s_cstr(E, st, a, ins): mkstr(E, st, a[0], E.cstr(st, a[1]))
def m_s_dtor(E, st, a, ins): delstr(E, st, a[0])
def m_s_append_s(E, st, a, ins):
    add = pstr(E, st, a[1]); append(E, st, a[0], add); return a[0]
def m_s_append_c(E, st, a, ins):
    add = E.cstr(st, a[1]); append(E, st, a[0], add); return a[0]
def m_s_append_ch(E, st, a, ins):
    c = a[1] & 255 if type(a[1]) is int else a[1]
    append(E, st, a[0], [c]); return a[0]
def m_s_push(E, st, a, ins):
    append(E, st, a[0], [a[1] & 255 if type(a[1]) is int else a[1]])
def append(E, st, p, add):
    """append in place when the capacity suffices, else reallocate as the library does"""
    d = E.load(st, p, 8); n = asint(E, st, E.load(st, ('p', p[1], p[2] + 8), 8)); o = p[2]
    local = type(d) is tuple and d[0] == 'p' and d[1] == p[1] and d[2] == o + 16
    cap = 15 if local else asint(E, st, E.load(st, ('p', p[1], o + 16), 8))
    m = n + len(add)
    if m <= cap:
        E.write_bytes(st, ('p', d[1], d[2] + n), list(add) + [0])
    else:
        old = E.read_bytes(st, d, n)
        ncap = max(m, 2 * cap)
        q = st.alloc(ncap + 1, 'new')
        E.write_bytes(st, q, old + list(add) + [0])
        if not local: release(E, st, d, 'new')
        E.store(st, p, 8, q); E.store(st, ('p', p[1], o + 16), 8, ncap)
    E.store(st, ('p', p[1], o + 8), 8, m)
def find_cells(E, st, xs, ys, pos):
    """first index >= pos where ys occurs in xs"""
    n, m = len(xs), len(ys)
    if pos > n: return NPOS
    if m == 0: return pos
    bx = concrete(xs); by = concrete(ys)
    if bx is not None and by is not None:
        k = bx.find(by, pos); return k if k >= 0 else NPOS
    for k in range(pos, n - m + 1):
        ok = True
        for x, y in zip(xs[k:k + m], ys):
            if type(x) is int and type(y) is int:
                if x != y: ok = False; break
        if not ok: continue
        for x, y in zip(xs[k:k + m], ys):
            if x != y and not E.cmp(st, 'eq', x, y, 8): ok = False; break
        if ok: return k
    return NPOS
def m_s_find_s(E, st, a, ins): return find_cells(E, st, pstr(E, st, a[0]), pstr(E, st, a[1]), asint(E, st, a[2]))
def m_s_find_c(E, st, a, ins): return find_cells(E, st, pstr(E, st, a[0]), E.cstr(st, a[1]), asint(E, st, a[2]))
def m_s_find_ch(E, st, a, ins): return find_cells(E, st, pstr(E, st, a[0]), [a[1] & 255 if type(a[1]) is int else a[1]], asint(E, st, a[2]))
def m_plus(k1, k2):
    def get(E, st, v, k):
        if k == 's': return pstr(E, st, v)
        if k == 'c': return E.cstr(st, v)
        return [v & 255 if type(v) is int else v]
    def m(E, st, a, ins): mkstr(E, st, a[0], get(E, st, a[1], k1) + get(E, st, a[2], k2))
    return m
def m_s_eq_c(E, st, a, ins):
    xs = pstr(E, st, a[0]); ys = E.cstr(st, a[1])
    return 1 if eq_cells(E, st, xs, ys) else 0
def m_s_eq_s(E, st, a, ins):
    return 1 if eq_cells(E, st, pstr(E, st, a[0]), pstr(E, st, a[1])) else 0
def eq_cells(E, st, xs, ys):
    if len(xs) != len(ys): return False
    for x, y in zip(xs, ys):
        if type(x) is int and type(y) is int and x != y: return False
    for x, y in zip(xs, ys):
        if x == y: continue
        if not E.cmp(st, 'eq', x, y, 8): return False
    return True

STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
ACCEL = {
    STR + '::basic_string(' + STR + ' const&)': m_s_copy,
    STR + '::~basic_string()': m_s_dtor,
    STR + '::basic_string<std::allocator<char>>(char const*, std::allocator<char> const&)': m_s_cstr,
    STR + '::append(' + STR + ' const&)': m_s_append_s,
    STR + '::append(char const*)': m_s_append_c,
    STR + '::operator+=(' + STR + ' const&)': m_s_append_s,
    STR + '::operator+=(char const*)': m_s_append_c,
    STR + '::operator+=(char)': m_s_append_ch,
    STR + '::push_back(char)': m_s_push,
    STR + '::find(' + STR + ' const&, unsigned long) const': m_s_find_s,
    STR + '::find(char const*, unsigned long) const': m_s_find_c,
    STR + '::find(char, unsigned long) const': m_s_find_ch,
}

OSTREAM = 'std::basic_ostream<char, std::char_traits<char>>&'
LIBC = {
    'malloc': m_malloc, 'calloc': m_calloc, 'free': m_free, 'realloc': m_realloc,
    'strlen': m_strlen, 'strcmp': m_strcmp_(False, False), 'strncmp': m_strcmp_(False, True), 'strcasecmp': m_strcmp_(True, False), 'strncasecmp': m_strcmp_(True, True),
    'memcmp': m_memcmp, 'bcmp': m_memcmp, 'memchr': m_memchr, 'strchr': m_strchr, 'strrchr': m_strrchr, 'strstr': m_strstr,
    'toupper': m_to('toupper', UP), 'tolower': m_to('tolower', LO), '__ctype_b_loc': m_ctype_b_loc,
    'snprintf': m_snprintf, 'fprintf': m_fprintf, 'fwrite': m_fwrite,
    'fopen64': m_fopen, 'fopen': m_fopen, 'fgetc': m_fgetc, 'getc': m_fgetc, 'fread': m_fread, 'ferror': m_ferror, 'feof': m_feof, 'clearerr': m_clearerr, 'fclose': m_fclose,
    '__cxa_allocate_exception': m_alloc_exc, '__cxa_free_exception': m_free_exc, '__cxa_throw': m_throw, '__cxa_begin_catch': m_begin_catch, '__cxa_end_catch': m_end_catch, '__cxa_rethrow': m_rethrow,
    '__cxa_atexit': m_ret0, '__cxa_guard_acquire': m_guard_acquire, '__cxa_guard_release': m_guard_release, '__cxa_guard_abort': m_nop,
    '__clang_call_terminate': m_abort, '__cxa_pure_virtual': m_abort, 'abort': m_abort,
    'exit': m_exit, '_exit': m_exit, 'time': m_time, 'localtime_r': m_localtime_r, '__errno_location': m_errno,
    'getenv': m_getenv, 'secure_getenv': m_getenv, 'rand': m_nd('rand'), 'random': m_nd('random'), 'getpid': m_nd('getpid'), 'clock': m_nd('clock'),
    '_ZNSt6chrono3_V212system_clock3nowEv': m_nd('clock'), '_ZNSt6chrono3_V212steady_clock3nowEv': m_nd('clock'),
    '_Znwm': m_new, '_ZdlPv': m_delete, '_ZdlPvm': m_delete, '_Znam': m_newa, '_ZdaPv': m_deletea, '_ZdaPvm': m_deletea,
    'gx.what': m_what,
}
for _n in _cls: LIBC[_n] = m_is(_n)

P = r'std::filesystem::__cxx11::path::'
RX = [
    (r'std::char_traits<char>::find\(char const\*, unsigned long, char const&\)', m_traits_find),
    (r'std::terminate\(\)', m_abort),
    (r'std::__throw_bad_alloc\(\)', m_throw_lib('_ZTISt9bad_alloc', 'std::bad_alloc')),
    (r'std::__throw_bad_array_new_length\(\)', m_throw_lib('_ZTISt20bad_array_new_length', 'std::bad_array_new_length')),
    (r'std::__throw_length_error\(.*', m_throw_length),
    (r'std::__throw_logic_error\(.*', m_throw_lib('_ZTISt11logic_error', 'basic_string: construction from null is not valid')),
    (r'std::__throw_out_of_range(_fmt)?\(.*', m_throw_lib('_ZTISt12out_of_range', 'out_of_range')),
    (r'std::__throw_invalid_argument\(.*', m_throw_lib('_ZTISt16invalid_argument', 'invalid_argument')),
    (r'std::__throw_bad_cast\(\)', m_throw_lib('_ZTISt8bad_cast', 'std::bad_cast')),
    (r'std::__throw_bad_function_call\(\)', m_throw_lib('_ZTISt17bad_function_call', 'bad_function_call')),
    (r'std::runtime_error::runtime_error\(char const\*\)', m_rt_ctor_c),
    (r'std::(runtime_error|logic_error|invalid_argument|out_of_range)::\1\(std::__cxx11.*', m_rt_ctor_s),
    (r'std::(runtime_error|logic_error|invalid_argument|out_of_range)::\1\(char const\*\)', m_rt_ctor_c),
    (r'std::(runtime_error|logic_error)::\1\(std::\1 const&\)', m_rt_copy),
    (r'std::(runtime_error|logic_error|exception|regex_error|invalid_argument|out_of_range)::~\1\(\)', m_nop),
    (r'std::(runtime_error|logic_error|exception|bad_alloc)::what\(\) const', m_what),
    (r'std::basic_ios<char, .*>::(fail\(\) const|operator!\(\) const|bad\(\) const)', m_fail),
    (r'std::basic_ios<char, .*>::(good\(\) const|operator bool\(\) const)', m_good),
    (r'std::basic_ios<char, .*>::(_M_)?setstate\(.*', m_setstate),
    (r'std::basic_ios<char, .*>::clear\(.*', m_clear),
    (r'std::basic_ofstream<char, .*>::basic_ofstream\(\)', m_ofs_ctor),
    (r'std::basic_ofstream<char, .*>::basic_ofstream\(char const\*.*', m_ofs_ctor_c),
    (r'std::basic_ofstream<char, .*>::basic_ofstream(<.*>)?\(std::(__cxx11::basic_string|filesystem).*', m_ofs_ctor_s),
    (r'std::basic_ofstream<char, .*>::~basic_ofstream\(\)', m_ofs_dtor),
    (r'std::basic_ofstream<char, .*>::is_open\(\)( const)?', m_ofs_isopen),
    (r'std::basic_ofstream<char, .*>::close\(\)', m_ofs_close),
    (r'std::basic_ofstream<char, .*>::open\(char const\*.*', m_ofs_open_c),
    (r'std::basic_ofstream<char, .*>::open\(std::__cxx11.*', m_ofs_open_s),
    (r'.*std::basic_ofstream<char, .*>::open<std::filesystem::.*', m_ofs_open_s),
    (r'std::(basic_)?ostream(<char, .*>)?::flush\(\)', m_flush),
    (r'std::basic_ostream<char, .*>& std::flush<.*', m_flush),
    (r'std::basic_ostream<char, .*>& std::endl<.*', m_endl),
    (r'std::(basic_)?ostream(<char, .*>)?::operator<<\(std::(basic_)?ostream.*\(\*\).*', m_manip),
    (r'std::(basic_)?ostream(<char, .*>)?::operator<<\(unsigned long( long)?\)', out_int(64, False)),
    (r'std::(basic_)?ostream(<char, .*>)?::operator<<\(long( long)?\)', out_int(64, True)),
    (r'std::(basic_)?ostream(<char, .*>)?::operator<<\((unsigned int)\)', out_int(32, False)),
    (r'std::(basic_)?ostream(<char, .*>)?::operator<<\((unsigned short)\)', out_int(16, False)),
    (r'std::(basic_)?ostream(<char, .*>)?::operator<<\(int\)', out_int(32, True)),
    (r'std::(basic_)?ostream(<char, .*>)?::operator<<\(short\)', out_int(16, True)),
    (r'std::(basic_)?ostream(<char, .*>)?::operator<<\(bool\)', out_int(8, False)),
    (r'std::(basic_)?ostream(<char, .*>)?::operator<<\((void const\*|double|float)\)', m_out_nd),
    (r'std::(basic_)?ostream(<char, .*>)?::put\(char\)', m_out_char),
    (r'std::(basic_)?ostream(<char, .*>)?::write\(char const\*, long\)', m_out_write),
    (r'.*std::operator<<<.*>\(std::basic_ostream<char, .*>&, char const\*\)', m_out_cstr),
    (r'.*std::operator<<<.*>\(std::basic_ostream<char, .*>&, (unsigned |signed )?char\)', m_out_char),
    (r'.*std::operator<<<.*>\(std::basic_ostream<char, .*>&, std::__cxx11::basic_string<.* const&\)', m_out_str),
    (r'.*std::operator<<<.*>\(std::basic_ostream<char, .*>&, std::_Put_time<char>\)', m_out_puttime),
    (r'std::__cxx11::basic_stringstream<char, .*>::basic_stringstream\(\)', m_ss_ctor),
    (r'std::__cxx11::basic_ostringstream<char, .*>::basic_ostringstream\(\)', m_oss_ctor),
    (r'std::__cxx11::basic_o?stringstream<char, .*>::str\(\) const( ?&+)?', m_ss_str),
    (r'std::__cxx11::basic_o?stringstream<char, .*>::~basic_o?stringstream\(\)', m_ss_dtor),
    (r'std::filesystem::symlink_status\(std::filesystem::__cxx11::path const&\)', m_symlink_status),
    (r'std::filesystem::status\(std::filesystem::__cxx11::path const&\)', m_status),
    (r'std::filesystem::remove\(std::filesystem::__cxx11::path const&\)', m_fs_remove),
    (r'std::filesystem::create_director(ies|y)\(std::filesystem::__cxx11::path const&\)', m_mkdirs),
    (r'std::filesystem::(current|temp_directory)_path\((std::error_code&)?\)', m_getcwd),
    (r'std::filesystem::(weakly_canonical|canonical|absolute)\(std::filesystem::__cxx11::path const&(, std::error_code&)?\)', m_fs_absolute),
    (P + r'_List::_Impl_deleter::operator.*', m_nop),
    (P + r'_List::_List\(\)', m_zero8), (P + r'_List::_List\(.*const&\)', m_zero8), (P + r'_List::operator=\(.*', m_nop),
    (P + r'_List::clear\(\)', m_nop),
    (P + r'_M_split_cmpts\(\)', m_nop),
    (P + r'operator=\(std::filesystem::__cxx11::path const&\)', m_path_assign),
    (P + r'operator/=\(std::filesystem::__cxx11::path const&\)', m_path_append),
    (P + r'filename\(\) const', m_path_filename), (P + r'extension\(\) const', m_path_extension), (P + r'stem\(\) const', m_path_stem), (P + r'parent_path\(\) const', m_path_parent),
    (P + r'replace_extension\(.*', m_path_replace_ext), (P + r'replace_filename\(.*', m_path_replace_filename),
    (P + r'compare\(std::filesystem::__cxx11::path const&\) const', m_path_compare),
    (r'std::__detail::_List_node_base::_M_hook\(.*', m_list_hook),
    (r'std::__detail::_List_node_base::_M_unhook\(.*', m_list_unhook),
    (r'std::locale::(locale|~locale)\(.*', m_nop),
    (r'std::__cxx11::basic_regex<char, .*>::basic_regex\(char const\*, std::regex_constants.*', m_re_ctor_c),
    (r'std::__cxx11::basic_regex<char, .*>::basic_regex<.*>\(std::__cxx11::basic_string<.*', m_re_ctor_s),
    (r'std::__cxx11::basic_regex<char, .*>::~basic_regex\(\)', m_re_dtor),
]
RX = [(re.compile(p), m) for p, m in RX]
PLUS = re.compile(r'(?:std::__cxx11::basic_string<.*>) std::operator\+<char, .*?>\((.*)\)$')

def lookup(name, fn):
    m = LIBC.get(name)
    if m is not None: return m
    if fn is None: return None
    d = re.sub(r'\[abi:\w+\]', '', fn.dem)
    m = ACCEL.get(d)
    if m is not None: return m
    if not (d.startswith('std::') or ' std::' in d): return None
    if 'std::regex_' in d[:400]:
        head = d.split('(')[0]
        if re.search(r'\bstd::regex_match<', head): return m_re_match(d[len(head):])
        if re.search(r'\bstd::regex_search<', head): return m_re_search(d[len(head):])
        if re.search(r'\bstd::regex_replace<', head): return m_re_replace(d[len(head):])
    p = PLUS.match(d)
    if p:
        parts = _split_args(p.group(1))
        ks = []
        for x in parts:
            if x.startswith('std::__cxx11::basic_string<') and x.endswith(' const&'): ks.append('s')
            elif x == 'char const*': ks.append('c')
            elif x == 'char': ks.append('h')
        if len(ks) == 2: return m_plus(*ks)
    if re.match(r'bool std::operator==<char, .*>\(std::__cxx11::basic_string<.*> const&, char const\*\)$', d): return m_s_eq_c
    if re.match(r'bool std::operator==<char>?.*\(std::__cxx11::basic_string<.*> const&, std::__cxx11::basic_string<.*> const&\)$', d): return m_s_eq_s
    for rx, m in RX:
        if rx.fullmatch(d): return m
    return None

def setup(E):
    """static regions the models rely on"""
    def vt(name, w):
        r = Region(96, 'ext', 0, name)
        for k, v in w.items(): r.w[k] = (8, v)
        E.base['@VT:' + name] = r
    vt('ofs', {32 - 24: OFS_IOS}); vt('ss', {8: SS_IOS}); vt('ss2', {8: SS_IOS - 16}); vt('oss', {8: 112}); vt('os', {8: OS_IOS})
    vt('exc', {16: ('f', 'gx.what'), 0: ('f', 'gx.nop'), 8: ('f', 'gx.nop')})
    LIBC['gx.nop'] = m_nop
    r = Region(768, 'ext', 0, 'ctype table'); r.ro = True
    order = ['isupper', 'islower', 'isalpha', 'isdigit', 'isxdigit', 'isspace', 'isprint', 'isgraph', 'isblank', 'iscntrl', 'ispunct', 'isalnum']
    for c in range(-128, 256):
        v = 0
        for b, n in enumerate(order):
            if _cls[n](c & 255) and c >= 0: v |= (1 << b) << 8 if b < 8 else (1 << b) >> 8
        r.w[256 + 2 * c] = (2, v)
    E.base['@ctype_tab'] = r
    r = Region(8, 'ext', 0, 'ctype'); r.w[0] = (8, ('p', '@ctype_tab', 256)); E.base['@ctype_b_ptr'] = r
    E.base['@errno_loc'] = Region(4, 'ext', 0, 'errno')
    E.base['@FILE:stdin'] = Region(216, 'ext', 0, 'stdin'); E.base['@FILE:stderr'] = Region(216, 'ext', 0, 'stderr'); E.base['@FILE:stdout'] = Region(216, 'ext', 0, 'stdout')
    def ext(r, g):
        r.dflt = ('u', 'ext:' + g)
        if g in ('stdin', 'stderr', 'stdout'): r.w[0] = (8, ('p', '@FILE:' + g, 0)); r.size = r.size or 8
        elif '@' + g in STD_STREAMS:
            r.size = 272; r.w[0] = (8, ('p', '@VT:os', 32))
        elif g == '__libc_single_threaded': r.dflt = 1; r.size = 1
        elif g == 'program_invocation_short_name': r.w[0] = (8, ('p', '@progname', 0)); r.size = 8
    E.ext_global = ext
    r = Region(10, 'ext', 0, 'progname'); r.b = list(b'gendlopen\0'); E.base['@progname'] = r
