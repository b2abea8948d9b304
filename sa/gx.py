"""Abstract interpreter for the generator's whole-program LLVM IR.

Same idea as engine.py (path-sensitive abstract interpretation, nothing is executed, no solver) but
with a domain made for text processing: memory cells hold concrete integers, pointers
(region, offset), undefined markers, opaque values, or *character cells*.  A character cell stands
for every byte of a set (its mask) at once; functions of a cell are kept as 256-entry tables, so
case conversion, classification and table look-ups stay exact.  A decision that is not uniform over
the mask splits the state in two.  The C++ library code that is present in the IR (strings, vectors,
lists, iterators, algorithms) is analysed like user code, so every access is checked against the
bounds and life time of the object it hits.

Values
  int                  concrete, unsigned canonical for its bit width (null = 0)
  ('p', rid, off)      pointer
  ('f', name)          function
  ('c', id, table)     function of character cell id (table: 256 unsigned values)
  ('u', tag)           opaque value
  UNDEF                uninitialised
  ('a', [..])          aggregate
"""
import itertools

class Split(Exception):
    def __init__(self, cid, mask): self.cid = cid; self.mask = mask

class Choice(Exception):
    def __init__(self, n, note): self.n = n; self.note = note

class Throw(Exception):
    def __init__(self, ty, obj): self.ty = ty; self.obj = obj

class End(Exception):
    """path ends: kind, value"""
    def __init__(self, kind, val=None): self.kind = kind; self.val = val

class Undecided(Exception):
    pass

UNDEF = ('undef',)
IDT = tuple(range(256))
FULL = (1 << 256) - 1
_MASKBITS = {}

def bits_of(mask):
    r = _MASKBITS.get(mask)
    if r is None:
        r = []
        m = mask; i = 0
        while m:
            if m & 1: r.append(i)
            m >>= 1; i += 1
        r = _MASKBITS[mask] = tuple(r)
    return r

def maskof(chars):
    m = 0
    for c in chars:
        m |= 1 << (c if isinstance(c, int) else ord(c))
    return m

class Region:
    __slots__ = ('size', 'kind', 'b', 'w', 'dflt', 'own', 'name', 'ro')
    def __init__(self, size, kind, dflt=UNDEF, name='', own=None):
        self.size = size; self.kind = kind; self.b = None; self.w = {}; self.dflt = dflt; self.own = own; self.name = name; self.ro = False

    def clone(self, own):
        r = Region(self.size, self.kind, self.dflt, self.name, own)
        r.b = None if self.b is None else list(self.b)
        r.w = dict(self.w); r.ro = self.ro
        return r

class Frame:
    __slots__ = ('fn', 'code', 'ip', 'R', 'prev', 'blk', 'call', 'locals', 'va', 'stk')

class State:
    def __init__(self):
        self.frames = []; self.mem = {}; self.own = object(); self.masks = {}; self.rel = {}
        self.cq = []; self.cqi = 0; self.path = None; self.exc = []; self.caught = []; self.steps = 0
        self.X = {}          # model state (streams, file system, ...): values must be treated as immutable
        self.next = 1

    def fork(self):
        s = State.__new__(State)
        s.frames = []
        for f in self.frames:
            g = Frame(); g.fn = f.fn; g.code = f.code; g.ip = f.ip; g.R = list(f.R); g.prev = f.prev; g.blk = f.blk
            g.call = f.call; g.locals = list(f.locals); g.va = f.va; g.stk = f.stk
            s.frames.append(g)
        s.mem = dict(self.mem)
        s.own = object(); self.own = object()
        s.masks = dict(self.masks); s.rel = dict(self.rel)
        s.cq = list(self.cq); s.cqi = 0; s.path = self.path; s.exc = list(self.exc); s.caught = list(self.caught); s.steps = self.steps
        s.X = dict(self.X); s.next = self.next
        return s

    def trace(self):
        out = []; p = self.path
        while p is not None:
            out.append(p[0]); p = p[1]
        return out[::-1]

    # ---- memory
    def wr(self, rid):
        r = self.mem[rid]
        if r.own is not self.own:
            r = r.clone(self.own); self.mem[rid] = r
        return r

    def alloc(self, size, kind, dflt=UNDEF, name=''):
        rid = self.next; self.next += 1
        self.mem[rid] = Region(size, kind, dflt, name, self.own)
        return ('p', rid, 0)

class Outcome:
    __slots__ = ('kind', 'val', 'st')
    def __init__(self, kind, val, st): self.kind = kind; self.val = val; self.st = st

class Violation:
    def __init__(self, rule, where, msg, trace): self.rule = rule; self.where = where; self.msg = msg; self.trace = trace

JUMP = object()

def sgn(v, bits):
    return v - (1 << bits) if v >> (bits - 1) else v

CMP = {
    'eq': lambda a, b, n: a == b, 'ne': lambda a, b, n: a != b,
    'ult': lambda a, b, n: a < b, 'ule': lambda a, b, n: a <= b, 'ugt': lambda a, b, n: a > b, 'uge': lambda a, b, n: a >= b,
    'slt': lambda a, b, n: sgn(a, n) < sgn(b, n), 'sle': lambda a, b, n: sgn(a, n) <= sgn(b, n),
    'sgt': lambda a, b, n: sgn(a, n) > sgn(b, n), 'sge': lambda a, b, n: sgn(a, n) >= sgn(b, n),
}

STD_BASES = {
    '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
    '_ZTISt8bad_cast': ['_ZTISt9exception'], '_ZTISt12length_error': ['_ZTISt11logic_error'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error'], '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
    '_ZTISt12domain_error': ['_ZTISt11logic_error'], '_ZTISt11range_error': ['_ZTISt13runtime_error'],
    '_ZTISt14overflow_error': ['_ZTISt13runtime_error'], '_ZTISt11regex_error': ['_ZTISt13runtime_error'],
    '_ZTISt17bad_function_call': ['_ZTISt9exception'], '_ZTISt12system_error': ['_ZTISt13runtime_error'],
    '_ZTINSt10filesystem7__cxx1116filesystem_errorE': ['_ZTISt12system_error'],
    '_ZTINSt8ios_base7failureB5cxx11E': ['_ZTISt12system_error'], '_ZTISt19bad_optional_access': ['_ZTISt9exception'],
    '_ZTISt18bad_variant_access': ['_ZTISt9exception'],
}

class Fn:
    __slots__ = ('name', 'dem', 'decl', 'nargs', 'd', 'blocks', 'code', 'nreg', 'file', 'line', 'dname', 'lines', 'files', 'args', 'phis', 'vararg', 'system', 'nounwind')

class Engine:
    MAXSTEPS = 40_000_000

    def __init__(self, js, lookup):
        self.js = js
        self.G = js['globals']
        self.lookup = lookup
        self.fns = {}
        for k, d in js['functions'].items():
            f = Fn(); f.name = k; f.d = d; f.dem = d['dem']; f.decl = d['decl']; f.nargs = len(d['args']); f.args = d['args']
            f.code = None; f.file = d.get('file', ''); f.line = d.get('line', 0); f.dname = d.get('name', ''); f.vararg = d.get('vararg', False)
            f.nounwind = d.get('nounwind', False)
            f.system = f.file.startswith('/usr/')
            self.fns[k] = f
        self.models = {}
        self.viol = {}
        self.base = {}
        self.unmodelled = {}
        self.seen = set()
        self.nsteps = 0; self.nforks = 0
        self.maxdepth = (0, None); self.maxdyn = (0, None); self.deep = []; self.rxused = {}
        self.rules = True
        self.notes = []

    # ------------------------------------------------------------------ reporting
    def where(self, st):
        """innermost frame that is not library code"""
        pick = None
        for f in reversed(st.frames):
            if not f.fn.system:
                pick = f; break
        if pick is None:
            if not st.frames: return ('?', '', 0)
            pick = st.frames[-1]
        ins = pick.fn.d['blocks'][pick.blk]['i']
        k = min(pick.ip, len(ins) - 1)
        l = 0
        while k >= 0:
            if 'l' in ins[k] and ins[k]['l'] and 'file' not in ins[k]:
                l = ins[k]['l']; break
            k -= 1
        return (pick.fn.dname or pick.fn.dem, pick.fn.file, l or pick.fn.line)

    def report(self, st, rule, msg):
        w = self.where(st)
        k = (rule, w, msg)
        if k not in self.viol:
            stack = ['%s' % (f.fn.dname or f.fn.dem) for f in st.frames if not f.fn.system][-8:]
            self.viol[k] = Violation(rule, w, msg, (['call stack: ' + ' > '.join(stack)] if stack else []) + st.trace()[-30:])

    # ------------------------------------------------------------------ nondeterminism
    def choose(self, st, n, note):
        """returns 0..n-1; forks"""
        if n == 1: return 0
        if st.cqi < len(st.cq):
            v = st.cq[st.cqi]; st.cqi += 1
            return v
        raise Choice(n, note)

    def mask(self, st, cid):
        m = st.masks.get(cid)
        return FULL if m is None else m

    def decide(self, st, cid, pred_table):
        """pred_table: 256 booleans; returns bool or splits"""
        m = self.mask(st, cid); t = f = 0
        for i in bits_of(m):
            if pred_table[i]: t |= 1 << i
            else: f |= 1 << i
        if not f: return True
        if not t: return False
        raise Split(cid, t)

    def simp(self, st, v):
        """collapse a character value that is constant over its mask"""
        m = bits_of(self.mask(st, v[1])); t = v[2]
        x = t[m[0]]
        for i in m:
            if t[i] != x: return v
        return x

    def concretize(self, st, v):
        """force a character value to be a concrete integer (splits)"""
        if type(v) is int: return v
        if v[0] == 'c':
            v = self.simp(st, v)
            if type(v) is int: return v
            m = bits_of(self.mask(st, v[1])); x = v[2][m[0]]
            raise Split(v[1], maskof(i for i in m if v[2][i] == x))
        return v

    def un(self, st, v, f):
        """apply f elementwise to a char value"""
        m = self.mask(st, v[1]); t = v[2]
        return self.simp(st, ('c', v[1], tuple(f(x) for x in t)))

    def cmp(self, st, pred, a, b, n):
        if type(a) is int and type(b) is int: return CMP[pred](a, b, n)
        if type(a) is tuple and a[0] == 'c': a = self.simp(st, a)
        if type(b) is tuple and b[0] == 'c': b = self.simp(st, b)
        if type(a) is int and type(b) is int: return CMP[pred](a, b, n)
        ka = a[0] if type(a) is tuple else 'i'; kb = b[0] if type(b) is tuple else 'i'
        if ka == 'undef' or kb == 'undef':
            self.report(st, 'uninit', 'decision depends on an uninitialised value')
            return bool(self.choose(st, 2, 'uninit'))
        if ka == 'c' and kb == 'i':
            p = CMP[pred]
            return self.decide(st, a[1], [p(x, b, n) for x in a[2]])
        if ka == 'i' and kb == 'c':
            p = CMP[pred]
            return self.decide(st, b[1], [p(a, x, n) for x in b[2]])
        if ka == 'c' and kb == 'c':
            p = CMP[pred]
            if a[1] == b[1]:
                return self.decide(st, a[1], [p(x, y, n) for x, y in zip(a[2], b[2])])
            va = {a[2][i] for i in bits_of(self.mask(st, a[1]))}; vb = {b[2][i] for i in bits_of(self.mask(st, b[1]))}
            rs = set()
            if len(va) * len(vb) <= 4096 or pred in ('eq', 'ne'):
                if pred in ('eq', 'ne') and not (va & vb): return pred == 'ne'
                for x in va:
                    for y in vb:
                        rs.add(p(x, y, n))
                        if len(rs) == 2: break
                    if len(rs) == 2: break
                if len(rs) == 1: return rs.pop()
            # a class of characters (a scanner state, a character kind): fix the class; names stay symbolic
            for x, vs in ((a, va), (b, vb)) if len(va) <= len(vb) else ((b, vb), (a, va)):
                mb = bits_of(self.mask(st, x[1]))
                if len(vs) < len(mb): raise Split(x[1], maskof(i for i in mb if x[2][i] == x[2][mb[0]]))
            neg = pred in ('ne',)
            key = ('eq' if pred in ('eq', 'ne') else pred,) + (((a, b) if a <= b else (b, a)) if pred in ('eq', 'ne') else (a, b))
            r = st.rel.get(key)
            if r is None:
                r = bool(self.choose(st, 2, 'char relation'))
                st.rel[key] = r
            return r ^ neg
        if ka == 'p' and kb == 'p':
            if a[1] == b[1]:
                return CMP[pred](a[2] & (2**64 - 1), b[2] & (2**64 - 1), 64)
            if pred == 'eq': return False
            if pred == 'ne': return True
            x = (isinstance(a[1], str), a[1]); y = (isinstance(b[1], str), b[1])
            return (x < y) == (pred in ('ult', 'ule', 'slt', 'sle'))
        if ka in ('p', 'f') and kb == 'i' or ka == 'i' and kb in ('p', 'f'):
            if pred == 'eq': return False
            if pred == 'ne': return True
            return (pred in ('ugt', 'uge', 'sgt', 'sge')) == (ka != 'i')
        if ka == 'f' and kb == 'f' and pred in ('eq', 'ne'): return (a == b) == (pred == 'eq')
        if ka in ('p', 'f') and kb in ('p', 'f') and pred in ('eq', 'ne'): return pred == 'ne'
        if a == b: return pred in ('eq', 'uge', 'ule', 'sge', 'sle')
        key = (pred, a, b); neg = False
        if pred == 'ne': key = ('eq', a, b); neg = True
        r = st.rel.get(key)
        if r is None:
            if st.cqi >= len(st.cq): self.opaque_hook(st, key)
            if r is None:
                r = bool(self.choose(st, 2, '%s %s %s' % (_sh(a), key[0], _sh(b))))
            st.rel[key] = r
        return r ^ neg
    def opaque_hook(self, st, key):
        t = repr(key)
        if "'nd:" in t:
            import re
            st.X['ev'] = st.X.get('ev', ()) + (('ndbranch', ', '.join(sorted(set(re.findall(r"'nd:([^']*)'", t)))), self.where(st)),)
        return None

    # ------------------------------------------------------------------ memory
    def region(self, st, p, why):
        """region of pointer p, or reports and ends the path"""
        if type(p) is tuple and p[0] == 'p':
            r = st.mem.get(p[1])
            if r is None:
                if isinstance(p[1], str) and p[1][0] == '@':
                    r = self.global_region(st, p[1])
                else:
                    self.report(st, 'dangling', 'pointer to an object whose life time ended is used (%s)' % why)
                    raise End('fault')
            if r.kind == 'freed':
                self.report(st, 'use-after-free', 'memory is used after it was released (%s)' % why)
                raise End('fault')
            return r
        if p == 0 or type(p) is int:
            self.report(st, 'null-deref', 'null or invalid pointer is used (%s)' % why)
            raise End('fault')
        if p is UNDEF or p[0] == 'undef':
            self.report(st, 'uninit', 'uninitialised pointer is used (%s)' % why)
            raise End('fault')
        if p[0] == 'f':
            raise Undecided('data access to a function')
        raise Undecided('access through an opaque pointer %s (%s)' % (_sh(p), why))

    def global_region(self, st, rid):
        r = self.base.get(rid)
        if r is None:
            g = rid[1:]
            G = self.G.get(g)
            if G is None: raise Undecided('global ' + g)
            r = Region(G['size'] or None, 'glob', 0, G.get('name', g))
            if 'init' in G:
                self.init_const(r, G['init'], 0)
                r.ro = bool(G['const'])
            else:
                self.ext_global(r, g)
            self.base[rid] = r
        st.mem[rid] = r
        return r

    def ext_global(self, r, g):
        r.dflt = ('u', 'ext:' + g)

    def init_const(self, r, v, off, size=None):
        k = v[0]
        if k == 's':
            d = bytes.fromhex(v[1])
            if r.b is None: r.b = [None] * r.size
            r.b[off:off + len(d)] = list(d)
        elif k == 'z': pass
        elif k == 'agg':
            lay = v[2] if len(v) > 2 else None
            for n, e in enumerate(v[1]):
                o = off + (lay[n] if isinstance(lay, list) else n * (lay or 1))
                self.init_const(r, e, o, lay if isinstance(lay, int) else None)
        elif k == 'i':
            sz = max(1, v[2] // 8)
            x = v[1] & ((1 << (8 * sz)) - 1)
            if sz == 1:
                if r.b is None: r.b = [None] * r.size
                r.b[off] = x
            else: r.w[off] = (sz, x)
        else:
            r.w[off] = (8, self.const(v))

    def const(self, o):
        k = o[0]
        if k == 'i': return o[1] & ((1 << o[2]) - 1)
        if k == 'n': return 0
        if k == 'g': return ('p', '@' + o[1], o[2])
        if k == 'f': return ('f', o[1])
        if k == 'u': return UNDEF
        if k == 'z': return 0
        if k == 'agg': return ('a', [self.const(x) for x in o[1]])
        if k == 'fp': return ('u', 'fp:' + o[1])
        if k == 'm': return UNDEF
        return ('u', 'const')

    def load_table(self, st, p, size):
        """load at an index that is a function of a character cell"""
        m = bits_of(self.mask(st, p[1])); memo = {}; out = [0] * 256
        r = self.region(st, ('p', p[2], 0), 'read')
        for b in m:
            o = p[3][b]
            v = memo.get(o)
            if v is None:
                if o < 0 or r.size is not None and o + size > r.size:
                    # out of bounds for some characters only: look at those alone
                    bad = maskof(k for k in m if p[3][k] < 0 or r.size is not None and p[3][k] + size > r.size)
                    if bad != maskof(m): raise Split(p[1], bad)
                    return self.load(st, ('p', p[2], o), size)     # reports it
                v = self.load(st, ('p', p[2], o), size); memo[o] = v
            if type(v) is not int: raise Split(p[1], maskof(k for k in m if p[3][k] == o)) if len({p[3][k] for k in m}) > 1 else Undecided('table of opaque values')
            out[b] = v
        return self.simp(st, ('c', p[1], tuple(out)))

    def load(self, st, p, size):
        if type(p) is tuple and p[0] == 't': return self.load_table(st, p, size)
        r = self.region(st, p, 'read') if type(p) is not tuple or p[0] != 'p' or p[1] not in st.mem or st.mem[p[1]].kind == 'freed' else st.mem[p[1]]
        off = p[2]
        if off < 0 or r.size is not None and off + size > r.size:
            self.report(st, 'oob-read', 'read of %d byte(s) at offset %d of an object of %s bytes' % (size, off, r.size))
            raise End('fault')
        if size == 1:
            if r.b is not None:
                v = r.b[off]
                if v is not None: return v
        x = r.w.get(off)
        if x is not None:
            s, v = x
            if s == size: return v
            if type(v) is int and s > size: return v & ((1 << (8 * size)) - 1)
            if size == 1 and s > 1: return ('u', 'part')
        elif not r.w and r.b is None:
            return r.dflt
        # compose / extract
        if r.b is not None and size > 1:
            bs = r.b[off:off + size]
            if all(type(c) is int for c in bs):
                return int.from_bytes(bytes(bs), 'little')
            if all(c is None for c in bs): bs = None
        else: bs = None
        for k in range(max(0, off - 15), off + size):
            x = r.w.get(k)
            if x is not None and k + x[0] > off and (k != off or bs is not None or x[0] != size):
                if type(x[1]) is int:
                    if k <= off and k + x[0] >= off + size: return (x[1] >> (8 * (off - k))) & ((1 << (8 * size)) - 1)
                    # mixture of words and bytes
                    return self.mixed(st, r, off, size)
                if x[1] == UNDEF: return UNDEF
                return ('u', 'part')
        if bs is not None:
            return self.mixed(st, r, off, size)
        return r.dflt

    def mixed(self, st, r, off, size):
        out = []
        for k in range(off, off + size):
            v = r.b[k] if r.b is not None else None
            if v is None:
                for j in range(max(0, k - 15), k + 1):
                    x = r.w.get(j)
                    if x is not None and j + x[0] > k:
                        v = (x[1] >> (8 * (k - j))) & 255 if type(x[1]) is int else ('u', 'part')
                if v is None: v = r.dflt
            out.append(v)
        if all(type(c) is int for c in out): return int.from_bytes(bytes(out), 'little')
        for c in out:
            if c == UNDEF: return UNDEF
        return ('u', 'part')

    def store(self, st, p, size, v):
        r = self.region(st, p, 'write') if type(p) is not tuple or p[0] != 'p' or p[1] not in st.mem or st.mem[p[1]].kind == 'freed' else st.mem[p[1]]
        off = p[2]
        if off < 0 or r.size is not None and off + size > r.size:
            self.report(st, 'oob-write', 'write of %d byte(s) at offset %d of an object of %s bytes' % (size, off, r.size))
            raise End('fault')
        if r.ro:
            self.report(st, 'const-write', 'write to constant data')
            raise End('fault')
        if r.own is not st.own:
            r = r.clone(st.own); st.mem[p[1]] = r
        if size == 1:
            if r.b is None: r.b = [None] * r.size
            r.b[off] = v
            if r.w: self.clear_words(r, off, 1)
        else:
            if r.w: self.clear_words(r, off, size)
            if r.b is not None:
                if off + size <= len(r.b): r.b[off:off + size] = [None] * size
            r.w[off] = (size, v)

    def clear_words(self, r, off, n):
        w = r.w
        if len(w) <= n + 8:
            ks = [k for k in w if k < off + n and k + w[k][0] > off]
        else:
            ks = [k for k in range(off - 15, off + n) if k in w and k + w[k][0] > off]
        for k in ks:
            s, v = w.pop(k)
            if k < off or k + s > off + n:
                # keep the parts that are not overwritten
                if type(v) is int:
                    if r.b is None: r.b = [None] * r.size
                    for j in range(s):
                        if not off <= k + j < off + n: r.b[k + j] = (v >> (8 * j)) & 255
                else:
                    if r.b is None and r.size is not None: r.b = [None] * r.size
                    for j in range(s):
                        if not off <= k + j < off + n and r.b is not None: r.b[k + j] = UNDEF if v == UNDEF else ('u', 'part')

    def check(self, st, p, n, why):
        r = self.region(st, p, why)
        if p[2] < 0 or r.size is not None and p[2] + n > r.size:
            self.report(st, 'oob-' + why, '%s of %d byte(s) at offset %d of an object of %s bytes' % (why, n, p[2], r.size))
            raise End('fault')
        return r

    def read_bytes(self, st, p, n):
        """list of n byte cells"""
        if n == 0: return []
        r = self.check(st, p, n, 'read')
        off = p[2]
        if not r.w:
            if r.b is None: return [r.dflt] * n
            out = r.b[off:off + n]
            if None in out: out = [r.dflt if c is None else c for c in out]
            return out
        return [self.load(st, ('p', p[1], k), 1) for k in range(off, off + n)]

    def write_bytes(self, st, p, cells):
        n = len(cells)
        if n == 0: return
        r = self.check(st, p, n, 'write')
        if r.ro:
            self.report(st, 'const-write', 'write to constant data')
            raise End('fault')
        r = st.wr(p[1])
        if r.b is None: r.b = [None] * r.size
        if r.w: self.clear_words(r, p[2], n)
        r.b[p[2]:p[2] + n] = cells

    def memcpy(self, st, d, s, n):
        if n == 0: return
        rs = self.check(st, s, n, 'read'); self.check(st, d, n, 'write')
        so, do = s[2], d[2]
        words = []
        if rs.w:
            if len(rs.w) <= n: words = [(k - so, x) for k, x in rs.w.items() if so <= k and k + x[0] <= so + n]
            else: words = [(k - so, rs.w[k]) for k in range(so, so + n) if k in rs.w and k + rs.w[k][0] <= so + n]
            cut = any(k < so + n and k + x[0] > so and not (so <= k and k + x[0] <= so + n) for k, x in rs.w.items())
        else: cut = False
        if cut:
            cells = [self.load(st, ('p', s[1], k), 1) for k in range(so, so + n)]
            self.write_bytes(st, d, cells); return
        bs = rs.b[so:so + n] if rs.b is not None else None
        if bs is None and rs.dflt is not UNDEF or bs is not None and rs.dflt is not UNDEF and None in bs:
            # defaults must be copied explicitly where no word covers them
            cov = set()
            for k, x in words: cov.update(range(k, k + x[0]))
            bs = bs or [None] * n
            bs = [(rs.dflt if bs[i] is None and i not in cov else bs[i]) for i in range(n)]
        if d[1] == s[1] or True:
            r = st.wr(d[1])
        if r.ro:
            self.report(st, 'const-write', 'write to constant data'); raise End('fault')
        if r.w: self.clear_words(r, do, n)
        if bs is not None:
            if r.b is None: r.b = [None] * r.size
            r.b[do:do + n] = bs
        elif r.b is not None: r.b[do:do + n] = [None] * n
        if bs is None or None in bs:
            if r.dflt is not UNDEF and not words and (bs is None):
                if r.b is None: r.b = [None] * r.size
                r.b[do:do + n] = [UNDEF] * n
        for k, x in words: r.w[do + k] = x

    def cstr(self, st, p, why='string'):
        """cells of the NUL terminated string at p (splits where a cell may be NUL)"""
        r = self.region(st, p, why); off = p[2]
        if off < 0 or r.size is not None and off > r.size:
            self.report(st, 'oob-read', 'string read outside of its object'); raise End('fault')
        out = []
        b = r.b; w = r.w
        n = r.size if r.size is not None else 1 << 40
        while True:
            if off >= n:
                self.report(st, 'unterminated', 'string is not terminated within its object of %s bytes' % r.size)
                raise End('fault')
            c = b[off] if b is not None else None
            if c is None: c = self.load(st, ('p', p[1], off), 1)
            if type(c) is not int:
                if c[0] == 'c':
                    if self.decide(st, c[1], [x == 0 for x in c[2]]): return out
                elif c[0] == 'undef':
                    self.report(st, 'uninit', 'uninitialised memory is read as a string')
                    raise End('fault')
                else:
                    raise Undecided('string with opaque bytes')
            elif c == 0: return out
            out.append(c); off += 1

    # ------------------------------------------------------------------ compile
    def compile(self, fn):
        d = fn.d
        fn.nreg = fn.nargs
        blocks = d['blocks']
        mx = fn.nargs
        for B in blocks:
            for i in B['i']:
                if i['id'] + 1 > mx: mx = i['id'] + 1
        fn.nreg = mx
        fn.code = []
        fn.phis = []
        # addresses that are only loaded from: a character used as index keeps its whole set
        geps = {i['id'] for B in blocks for i in B['i'] if i['op'] == 'getelementptr' and i['var']}
        if geps:
            def scan(x, skip=None):
                if type(x) is list:
                    if len(x) >= 2 and x[0] == 'v' and type(x[1]) is int: geps.discard(x[1])
                    else:
                        for y in x: scan(y)
                elif type(x) is dict:
                    for k, y in x.items(): scan(y)
            for B in blocks:
                for i in B['i']:
                    scan({k: v for k, v in i.items() if not (i['op'] == 'load' and k == 'ops')})
        self._ldonly = geps
        # calls whose pointer result is only compared with null
        calls = {i['id']: i for B in blocks for i in B['i'] if i['op'] in ('call', 'invoke') and i['id'] >= 0}
        if calls:
            def uses(x):
                if type(x) is list:
                    if len(x) >= 2 and x[0] == 'v' and type(x[1]) is int: calls.pop(x[1], None)
                    else:
                        for y in x: uses(y)
                elif type(x) is dict:
                    for y in x.values(): uses(y)
            for B in blocks:
                for i in B['i']:
                    if i['op'] == 'icmp' and any(o[0] == 'n' for o in i['ops']): continue
                    uses({k: v for k, v in i.items() if k != 'nullonly'})
            for i in calls.values(): i['nullonly'] = True
        for B in blocks:
            ph = {}
            code = []
            k = 0
            for i in B['i']:
                if i['op'] == 'phi':
                    for pb, o in i['inc']: ph.setdefault(pb, []).append((i['id'], o[0] == 'v', o[1] if o[0] == 'v' else self.const(o)))
                    code.append(None); k += 1
                else:
                    code.append(self.comp(fn, i))
            fn.phis.append((ph, k))
            fn.code.append(code)

    def opnd(self, o):
        return (True, o[1]) if o[0] == 'v' else (False, self.const(o))

    def comp(self, fn, i):
        h = getattr(self, 'c_' + i['op'], None)
        if h is None:
            id = i['id']; op = i['op']
            def f(st, R): R[id] = ('u', op)
            return f
        return h(fn, i)

    def getters(self, i):
        gs = []
        for o in i['ops']:
            v, x = self.opnd(o)
            if v: gs.append(lambda R, x=x: R[x])
            else: gs.append(lambda R, x=x: x)
        return gs

    def c_alloca(self, fn, i):
        id = i['id']; sz = i['asz']; nm = i.get('n', '')
        cnt = i['ops'][0] if i['ops'] else ['i', 1, 32]
        if cnt[0] == 'i':
            sz *= cnt[1]
            def f(st, R):
                p = st.alloc(sz, 'loc', UNDEF, nm)
                st.frames[-1].locals.append(p[1]); R[id] = p
        else:
            x = cnt[1]
            def f(st, R):
                n = self.concretize(st, R[x])
                p = st.alloc(sz * n, 'loc', UNDEF, nm)
                fr = st.frames[-1]; fr.stk += sz * n
                if fr.stk > self.maxdyn[0]: self.maxdyn = (fr.stk, self.where(st))
                st.frames[-1].locals.append(p[1]); R[id] = p
        return f

    def c_load(self, fn, i):
        id = i['id']; sz = i['sz']; v, x = self.opnd(i['ops'][0]); load = self.load
        m = (1 << i['bits']) - 1 if 'bits' in i and i['bits'] < sz * 8 else None
        agg = i['ty'][0] in '{['
        if agg:
            lay = agg_layout(i['ty'])
            if lay is None:
                def f(st, R):
                    R[id] = ('u', 'aggregate load')
                return f
            def f(st, R):
                p = R[x] if v else x
                if type(p) is not tuple or p[0] != 'p': load(st, p, 1)
                R[id] = ('a', [load(st, ('p', p[1], p[2] + o), s) for o, s in lay])
            return f
        if m is not None:
            def f(st, R):
                y = load(st, R[x] if v else x, sz)
                R[id] = y & m if type(y) is int else y
            return f
        if v:
            def f(st, R):
                p = R[x]
                try:
                    r = st.mem[p[1]]
                    if r.kind != 'freed':
                        off = p[2]
                        y = r.w.get(off)
                        if y is not None and y[0] == sz and r.size is not None and off + sz <= r.size and off >= 0:
                            R[id] = y[1]; return
                except (KeyError, TypeError, IndexError): pass
                R[id] = load(st, p, sz)
        else:
            def f(st, R): R[id] = load(st, x, sz)
        return f

    def c_store(self, fn, i):
        sz = i['sz']; store = self.store
        va, a = self.opnd(i['ops'][0]); vb, b = self.opnd(i['ops'][1])
        lay = agg_layout(i.get('vty', ''))
        if lay:
            def f(st, R):
                y = R[a] if va else a; p = R[b] if vb else b
                if type(y) is tuple and y[0] == 'a' and type(p) is tuple and p[0] == 'p':
                    for (o, s), z in zip(lay, list(y[1]) + [UNDEF] * len(lay)): store(st, ('p', p[1], p[2] + o), s, z)
                else:
                    for o, s in lay: store(st, ('p', p[1], p[2] + o) if type(p) is tuple and p[0] == 'p' else p, s, 0 if y == 0 else UNDEF if y == UNDEF else ('u', 'agg'))
            return f
        def f(st, R):
            store(st, R[b] if vb else b, sz, R[a] if va else a)
        return f

    def c_getelementptr(self, fn, i):
        id = i['id']; vb, b = self.opnd(i['base']); off = i['off']
        var = i['var']
        if not var:
            if vb:
                def f(st, R):
                    p = R[b]
                    if type(p) is tuple and p[0] == 'p': R[id] = ('p', p[1], p[2] + off)
                    elif type(p) is int: R[id] = (p + off) & (2**64 - 1)
                    elif p[0] == 'undef': R[id] = UNDEF
                    else: R[id] = ('u', ('gep', p, off)) if off else p
                return f
            def f(st, R):
                R[id] = ('p', b[1], b[2] + off) if type(b) is tuple else b + off
            return f
        vs = [(sc, ) + self.opnd(o) + (nb,) for (sc, o), nb in zip(var, i.get('vbits') or [64] * len(var))]
        ldonly = id in self._ldonly
        def f(st, R):
            p = R[b] if vb else b
            o = off; tab = None
            for sc, v, x, nb in vs:
                y = R[x] if v else x
                if type(y) is not int:
                    if type(y) is tuple and y[0] == 'c':
                        if ldonly and type(p) is tuple and p[0] == 'p' and tab is None:
                            y = self.simp(st, y)
                            if type(y) is not int:
                                tab = (y[1], tuple(sc * (t - (1 << nb) if t >> (nb - 1) else t) for t in y[2])); continue
                        else: y = self.concretize(st, y)
                    elif type(y) is tuple and y[0] == 'p' and p == 0:
                        p, y = y, 0
                    elif y == UNDEF:
                        self.report(st, 'uninit', 'uninitialised index'); raise End('fault')
                    elif y[0] == 'neg': 
                        raise Undecided('pointer arithmetic')
                    else: raise Undecided('opaque index %s' % _sh(y))
                if y >> (nb - 1): y -= 1 << nb
                o += sc * y
            if tab is not None:
                R[id] = ('t', tab[0], p[1], tuple(p[2] + o + t for t in tab[1])); return
            if type(p) is tuple and p[0] == 'p': R[id] = ('p', p[1], p[2] + o)
            elif type(p) is int: R[id] = (p + o) & (2**64 - 1)
            elif p[0] == 'undef': R[id] = UNDEF
            else: R[id] = ('u', ('gep', p, o)) if o else p
        return f

    def _binop(self, i, fi):
        id = i['id']; va, a = self.opnd(i['ops'][0]); vb, b = self.opnd(i['ops'][1]); n = i['bits'] if 'bits' in i else 64
        m = (1 << n) - 1; op = i['op']
        def slow(st, x, y):
            if x is UNDEF or y is UNDEF or x == UNDEF or y == UNDEF: return UNDEF
            kx = x[0] if type(x) is tuple else 'i'; ky = y[0] if type(y) is tuple else 'i'
            if kx == 'c' and ky == 'i': return self.simp(st, ('c', x[1], tuple(fi(t, y, n) & m for t in x[2])))
            if kx == 'i' and ky == 'c': return self.simp(st, ('c', y[1], tuple(fi(x, t, n) & m for t in y[2])))
            if kx == 'c' and ky == 'c' and x[1] == y[1]: return self.simp(st, ('c', x[1], tuple(fi(t, u, n) & m for t, u in zip(x[2], y[2]))))
            if op == 'add':
                if kx == 'p' and ky == 'i': return ('p', x[1], x[2] + sgn(y, 64))
                if kx == 'i' and ky == 'p': return ('p', y[1], y[2] + sgn(x, 64))
            if op == 'sub':
                if kx == 'p' and ky == 'i': return ('p', x[1], x[2] - sgn(y, 64))
                if kx == 'p' and ky == 'p' and x[1] == y[1]: return (x[2] - y[2]) & m
                if x == y: return 0
            if op == 'and' and kx == 'p' and ky == 'i' and y < 16: return (x[2] & y)
            if op == 'and' and (x == 0 or y == 0): return 0
            if op == 'mul' and (x == 0 or y == 0): return 0
            if op in ('or', 'xor', 'add', 'sub', 'shl', 'lshr', 'ashr') and ky == 'i' and y == 0: return x
            if op in ('or', 'xor', 'add') and kx == 'i' and x == 0: return y
            if kx == 'c' and ky == 'c':
                mx = bits_of(self.mask(st, x[1])); my = bits_of(self.mask(st, y[1]))
                dx = len({x[2][k] for k in mx}); dy = len({y[2][k] for k in my})
                if min(dx, dy) <= 64:
                    if dx <= dy: x = self.concretize(st, x)
                    else: y = self.concretize(st, y)
                    return slow(st, x, y)
                return ('u', (op, x[1], y[1]))
            return ('u', (op, x, y) if _depth(x) + _depth(y) < 6 else op)
        if va and not vb:
            def f(st, R):
                x = R[a]
                R[id] = fi(x, b, n) & m if type(x) is int and type(b) is int else slow(st, x, b)
        else:
            def f(st, R):
                x = R[a] if va else a; y = R[b] if vb else b
                R[id] = fi(x, y, n) & m if type(x) is int and type(y) is int else slow(st, x, y)
        return f

    def c_add(self, fn, i): return self._binop(i, lambda x, y, n: x + y)
    def c_sub(self, fn, i): return self._binop(i, lambda x, y, n: x - y)
    def c_mul(self, fn, i): return self._binop(i, lambda x, y, n: x * y)
    def c_and(self, fn, i): return self._binop(i, lambda x, y, n: x & y)
    def c_or(self, fn, i): return self._binop(i, lambda x, y, n: x | y)
    def c_xor(self, fn, i): return self._binop(i, lambda x, y, n: x ^ y)
    def c_shl(self, fn, i): return self._binop(i, lambda x, y, n: x << y if y < n else 0)
    def c_lshr(self, fn, i): return self._binop(i, lambda x, y, n: x >> y)
    def c_ashr(self, fn, i): return self._binop(i, lambda x, y, n: sgn(x, n) >> y)
    def c_udiv(self, fn, i): return self._binop(i, lambda x, y, n: x // y if y else 0)
    def c_urem(self, fn, i): return self._binop(i, lambda x, y, n: x % y if y else 0)
    def c_sdiv(self, fn, i):
        def g(x, y, n):
            x = sgn(x, n); y = sgn(y, n)
            if y == 0: return 0
            q = abs(x) // abs(y)
            return q if (x < 0) == (y < 0) else -q
        return self._binop(i, g)
    def c_srem(self, fn, i):
        def g(x, y, n):
            x = sgn(x, n); y = sgn(y, n)
            if y == 0: return 0
            r = abs(x) % abs(y)
            return -r if x < 0 else r
        return self._binop(i, g)

    def _cast(self, i, g):
        id = i['id']; v, x = self.opnd(i['ops'][0])
        def f(st, R):
            y = R[x] if v else x
            if type(y) is int: R[id] = g(y)
            elif y[0] == 'c': R[id] = self.simp(st, ('c', y[1], tuple(g(t) for t in y[2])))
            else: R[id] = y
        return f
    def c_zext(self, fn, i): return self._cast(i, lambda y: y)
    def c_sext(self, fn, i):
        s = i['sbits']; m = (1 << i['bits']) - 1
        return self._cast(i, lambda y: (sgn(y, s)) & m)
    def c_trunc(self, fn, i):
        m = (1 << i['bits']) - 1
        return self._cast(i, lambda y: y & m)
    def _id(self, fn, i):
        id = i['id']; v, x = self.opnd(i['ops'][0])
        def f(st, R): R[id] = R[x] if v else x
        return f
    c_bitcast = c_ptrtoint = c_inttoptr = c_freeze = c_addrspacecast = _id

    def c_icmp(self, fn, i):
        id = i['id']; pred = i['pred']; n = i['cbits']; va, a = self.opnd(i['ops'][0]); vb, b = self.opnd(i['ops'][1])
        ci = CMP[pred]; cmp = self.cmp
        def f(st, R):
            x = R[a] if va else a; y = R[b] if vb else b
            if type(x) is int and type(y) is int: R[id] = 1 if ci(x, y, n) else 0
            else: R[id] = 1 if cmp(st, pred, x, y, n) else 0
        return f

    def truth(self, st, v, why='branch'):
        if type(v) is int: return v & 1
        if v[0] == 'c': return self.decide(st, v[1], [x & 1 for x in v[2]])
        if v[0] == 'undef':
            self.report(st, 'uninit', '%s depends on an uninitialised value' % why)
            return self.choose(st, 2, 'uninit')
        return self.cmp(st, 'ne', v, 0, 1)

    def c_select(self, fn, i):
        id = i['id']; g = self.getters(i)
        def f(st, R): R[id] = g[1](R) if self.truth(st, g[0](R)) else g[2](R)
        return f

    def c_br(self, fn, i):
        ops = i['ops']
        if len(ops) == 1:
            t = ops[0][1]
            def f(st, R): return t
            return f
        v, x = self.opnd(ops[0]); fb = ops[1][1]; tb = ops[2][1]
        truth = self.truth
        def f(st, R):
            y = R[x] if v else x
            if type(y) is int: return tb if y & 1 else fb
            return tb if truth(st, y) else fb
        return f

    def c_switch(self, fn, i):
        v, x = self.opnd(i['cond']); n = i.get('cbits', 32); m = (1 << n) - 1
        cases = {c & m: b for c, b in i['cases']}; dflt = i['default']
        def f(st, R):
            y = R[x] if v else x
            if type(y) is int: return cases.get(y, dflt)
            if y[0] == 'c':
                mk = self.mask(st, y[1]); groups = {}
                for k in bits_of(mk): groups.setdefault(cases.get(y[2][k], dflt), []).append(k)
                if len(groups) == 1: return next(iter(groups))
                raise Split(y[1], maskof(next(iter(groups.values()))))
            if y[0] == 'undef':
                self.report(st, 'uninit', 'switch depends on an uninitialised value'); raise End('fault')
            for c, b in cases.items():
                if self.cmp(st, 'eq', y, c, n): return b
            return dflt
        return f

    def c_unreachable(self, fn, i):
        def f(st, R):
            self.report(st, 'unreachable', 'control reaches a point the compiler assumes to be unreachable (undefined behaviour)')
            raise End('fault')
        return f

    def c_ret(self, fn, i):
        if i.get('ops'):
            v, x = self.opnd(i['ops'][0])
            def f(st, R): return self.do_ret(st, R[x] if v else x)
        else:
            def f(st, R): return self.do_ret(st, None)
        return f

    def drop(self, st, fr):
        for rid in fr.locals:
            st.mem.pop(rid, None)

    def do_ret(self, st, v):
        fr = st.frames.pop()
        self.drop(st, fr)
        if not st.frames: raise End('ret', v)
        c = fr.call
        top = st.frames[-1]
        if c is not None:
            if c[0] is not None: top.R[c[0]] = v
            if c[1] is not None:     # invoke
                self.jump(top, c[1])
            else: top.ip += 1
        return JUMP

    def jump(self, fr, t):
        fn = fr.fn; ph, k = fn.phis[t]
        if k:
            R = fr.R
            mv = ph[fr.blk]
            if len(mv) == 1:
                id, v, x = mv[0]; R[id] = R[x] if v else x
            else:
                vals = [R[x] if v else x for _, v, x in mv]
                for (id, _, _), y in zip(mv, vals): R[id] = y
        fr.blk = t; fr.code = fn.code[t]; fr.ip = k

    def c_extractvalue(self, fn, i):
        id = i['id']; v, x = self.opnd(i['ops'][0]); idx = i['idx']
        def f(st, R):
            y = R[x] if v else x
            for k in idx:
                y = y[1][k] if type(y) is tuple and y[0] == 'a' and k < len(y[1]) else ('u', 'agg') if y != UNDEF else UNDEF
            R[id] = y
        return f

    def c_insertvalue(self, fn, i):
        id = i['id']; g = self.getters(i); k = i['idx'][0]; deep = len(i['idx']) > 1
        def f(st, R):
            a = g[0](R); l = list(a[1]) if type(a) is tuple and a[0] == 'a' else []
            while len(l) <= k: l.append(UNDEF)
            l[k] = g[1](R) if not deep else ('u', 'agg')
            R[id] = ('a', l)
        return f

    def c_fence(self, fn, i): return lambda st, R: None

    def c_landingpad(self, fn, i):
        id = i['id']
        clauses = [(k, o[1] if o[0] == 'g' else None) for k, o in i['clauses']]
        def f(st, R):
            ty, obj = st.exc[-1]
            sel = 0
            for k, t in clauses:
                if k == 'catch' and (t is None or self.isa(ty, t)):
                    sel = self.tid(t); break
            R[id] = ('a', [obj, sel])
        return f

    def tid(self, t):
        if not hasattr(self, '_tids'): self._tids = {}
        return self._tids.setdefault(t, len(self._tids) + 1)

    def isa(self, ty, base):
        if ty == base: return True
        G = self.G.get(ty)
        if G and 'init' in G and G['init'][0] == 'agg':
            for o in G['init'][1][2:]:
                if o[0] == 'g' and o[1].startswith('_ZTI') and self.isa(o[1], base): return True
        return any(self.isa(b, base) for b in STD_BASES.get(ty, ()))

    def c_resume(self, fn, i):
        def f(st, R):
            fr = st.frames.pop(); self.drop(st, fr)
            return self.unwind(st)
        return f

    def handler_exists(self, st, ty):
        for fr in reversed(st.frames):
            ins = fr.fn.d['blocks'][fr.blk]['i'][fr.ip] if fr.ip < len(fr.fn.d['blocks'][fr.blk]['i']) else None
            if ins is not None and ins['op'] == 'invoke':
                lp = None
                for j in fr.fn.d['blocks'][ins['unwind']]['i']:
                    if j['op'] == 'landingpad': lp = j; break
                for k, o in lp['clauses']:
                    if k == 'catch' and (o[0] != 'g' or self.isa(ty, o[1])): return True
        return False

    def throw(self, st, ty, obj):
        if not self.handler_exists(st, ty):
            raise End('uncaught', (ty, obj))
        st.exc.append((ty, obj))
        return self.unwind(st)

    def unwind(self, st):
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn.d['blocks'][fr.blk]['i'][fr.ip]
            if ins['op'] == 'invoke':
                self.jump(fr, ins['unwind'])
                return JUMP
            st.frames.pop(); self.drop(st, fr)
        raise End('uncaught', st.exc[-1])

    # ---- calls
    def push(self, st, fn, args, ret):
        if fn.code is None: self.compile(fn)
        if len(st.frames) > 400:
            raise End('recursion')
        fr = Frame(); fr.fn = fn; fr.R = [None] * fn.nreg; fr.prev = -1; fr.blk = 0; fr.call = ret; fr.locals = []; fr.stk = 0
        fr.R[:fn.nargs] = args[:fn.nargs]
        fr.va = args[fn.nargs:] if fn.vararg else None
        fr.code = fn.code[0]; fr.ip = 0
        st.frames.append(fr)
        if len(st.frames) > self.maxdepth[0]: self.maxdepth = (len(st.frames), None); self.deep = [f.fn for f in st.frames]
        self.seen.add(fn.name)

    def c_call(self, fn, i):
        id = i['id'] if 'ty' in i else None
        norm = i.get('normal')
        ret = (id, norm)
        gs = [self.opnd(o) for o in i['ops']]
        cv, cx = self.opnd(i['callee'])
        me = i
        if not cv and cx[0] == 'f':
            name = cx[1]
            if name.startswith('llvm.'):
                return self.intrinsic(name, i)
            callee = self.fns.get(name)
            model = self.model(name, callee)
            if model is not None:
                def f(st, R):
                    args = [R[x] if v else x for v, x in gs]
                    try:
                        r = model(self, st, args, me)
                    except Throw as t:
                        return self.throw(st, t.ty, t.obj)
                    st.cq = []; st.cqi = 0
                    if r is PUSHED: return JUMP
                    if id is not None: R[id] = r
                    if norm is not None:
                        self.jump(st.frames[-1], norm); return JUMP
                return f
            if callee is not None and not callee.decl:
                def f(st, R):
                    args = [R[x] if v else x for v, x in gs]
                    self.push(st, callee, args, ret)
                    return JUMP
                return f
            def f(st, R):
                dem = callee.dem if callee is not None else name
                self.unmodelled[dem] = self.unmodelled.get(dem, 0) + 1
                raise Undecided('unmodelled external function ' + dem)
            return f
        def f(st, R):
            c = R[cx] if cv else cx
            args = [R[x] if v else x for v, x in gs]
            if type(c) is tuple and c[0] == 'f':
                callee = self.fns.get(c[1])
                model = self.model(c[1], callee)
                if model is not None:
                    try: r = model(self, st, args, me)
                    except Throw as t: return self.throw(st, t.ty, t.obj)
                    st.cq = []; st.cqi = 0
                    if r is PUSHED: return JUMP
                    if id is not None: R[id] = r
                    if norm is not None:
                        self.jump(st.frames[-1], norm); return JUMP
                    return None
                if callee is not None and not callee.decl:
                    self.push(st, callee, args, ret); return JUMP
                raise Undecided('unmodelled external function ' + (callee.dem if callee else c[1]))
            if c == 0 or c == UNDEF:
                self.report(st, 'null-call', 'call through a null or uninitialised function pointer'); raise End('fault')
            raise Undecided('opaque call')
        return f
    c_invoke = c_call

    def model(self, name, fn):
        if name in self.models: return self.models[name]
        m = self.lookup(name, fn)
        self.models[name] = m
        return m

    def intrinsic(self, name, i):
        id = i['id'] if 'ty' in i else None
        g = self.getters(i)
        b = name[5:]
        if b.startswith(('memcpy', 'memmove')):
            def f(st, R):
                n = self.concretize(st, g[2](R))
                if type(n) is not int: raise Undecided('opaque size')
                self.memcpy(st, g[0](R), g[1](R), n)
        elif b.startswith('memset'):
            def f(st, R):
                n = g[2](R); c = g[1](R)
                if type(n) is not int: raise Undecided('opaque size')
                p = g[0](R)
                if n == 0: return
                self.check(st, p, n, 'write')
                r = st.wr(p[1])
                if c == 0 and p[2] == 0 and n == r.size:
                    r.b = None; r.w = {}; r.dflt = 0
                else: self.write_bytes(st, p, [c] * n)
        elif b.startswith(('umax', 'umin', 'smax', 'smin')):
            pr = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[b[:4]]
            n = i['bits']
            def f(st, R):
                x, y = g[0](R), g[1](R)
                R[id] = x if self.cmp(st, pr, x, y, n) else y
        elif b.startswith('abs'):
            n = i['bits']
            def f(st, R):
                x = g[0](R); R[id] = abs(sgn(x, n)) & ((1 << n) - 1) if type(x) is int else ('u', 'abs')
        elif b.startswith('eh.typeid.for'):
            o = i['ops'][0]; t = self.tid(o[1] if o[0] == 'g' else None)
            def f(st, R): R[id] = t
        elif b.startswith(('umul.with.overflow', 'uadd.with.overflow', 'usub.with.overflow', 'sadd.with.overflow', 'smul.with.overflow', 'ssub.with.overflow')):
            n = int(name.rsplit('.i', 1)[1]); op = {'mul': lambda x, y: x * y, 'add': lambda x, y: x + y, 'sub': lambda x, y: x - y}[b[1:4]]; signed = b[0] == 's'
            def f(st, R):
                x, y = g[0](R), g[1](R)
                if type(x) is int and type(y) is int:
                    if signed: x = sgn(x, n); y = sgn(y, n)
                    z = op(x, y); m = (1 << n) - 1
                    ov = not (-(1 << (n - 1)) <= z < (1 << (n - 1))) if signed else not (0 <= z <= m)
                    R[id] = ('a', [z & m, int(ov)])
                else: R[id] = ('a', [('u', 'ovf'), 0])
        elif b.startswith('trap'):
            def f(st, R): raise End('abort', 'trap')
        elif b.startswith('stacksave'):
            def f(st, R): R[id] = 0
        elif b.startswith('is.constant'):
            def f(st, R): R[id] = 0
        elif b.startswith('expect') or b.startswith('ctpop') is None:
            def f(st, R): R[id] = g[0](R)
        elif b.startswith('ctlz'):
            n = i['bits']
            def f(st, R):
                x = g[0](R); R[id] = n - x.bit_length() if type(x) is int else ('u', 'ctlz')
        elif b.startswith('va_start'):
            def f(st, R):
                p = g[0](R); self.store(st, ('p', p[1], p[2]), 8, ('va', tuple(st.frames[-1].va or ())))
        elif b.startswith(('lifetime', 'assume', 'dbg', 'va_end', 'stackrestore', 'experimental', 'invariant', 'donothing', 'prefetch', 'var.annotation')):
            def f(st, R): return None
        else:
            def f(st, R):
                raise Undecided('intrinsic ' + name)
        if i['op'] == 'invoke':
            n2 = i['normal']
            def f2(st, R):
                f(st, R)
                self.jump(st.frames[-1], n2); return JUMP
            return f2
        return f

    # ------------------------------------------------------------------ run
    def call(self, fn, args, st, maxpaths=100000, deadline=None, maxsteps=None):
        """analyse fn from st; -> list of Outcome"""
        if isinstance(fn, str): fn = self.fns[fn]
        assert not st.frames
        self.push(st, fn, args, None)
        work = [st]; outs = []
        while work:
            st = work.pop()
            self.drive(st, work, outs, maxsteps or self.MAXSTEPS)
            if len(outs) + len(work) > maxpaths: raise Undecided('too many paths')
        return outs

    def drive(self, st, work, outs, maxsteps):
        steps = 0
        fr = None
        while True:
            fr = st.frames[-1]
            code = fr.code; R = fr.R; ip = fr.ip
            try:
                while True:
                    x = code[ip](st, R)
                    steps += 1
                    if x is None:
                        ip += 1
                        fr.ip = ip
                        continue
                    if x is JUMP: break
                    # intra-procedural jump
                    fr.ip = ip
                    fn = fr.fn; ph, k = fn.phis[x]
                    if k:
                        mv = ph[fr.blk]
                        if len(mv) == 1:
                            id, v, y = mv[0]; R[id] = R[y] if v else y
                        else:
                            vals = [R[y] if v else y for _, v, y in mv]
                            for (id, _, _), y in zip(mv, vals): R[id] = y
                    fr.blk = x; code = fr.code = fn.code[x]; ip = fr.ip = k
                    if steps > maxsteps: raise End('budget')
            except Split as s:
                self.nforks += 1
                m = self.mask(st, s.cid)
                t = st.fork()
                t.masks[s.cid] = m & ~s.mask; st.masks[s.cid] = m & s.mask
                w = self.where(st)
                t.path = ('%s:%s %s not in %s' % (w[0], w[2], s.cid, _mk(s.mask & m)), t.path); st.path = ('%s:%s %s in %s' % (w[0], w[2], s.cid, _mk(s.mask & m)), st.path)
                st.cqi = 0; t.cqi = 0
                work.append(t)
            except Choice as c:
                self.nforks += 1
                w = self.where(st)
                for k in range(1, c.n):
                    t = st.fork(); t.cq = st.cq + [k]; t.cqi = 0
                    t.path = ('%s:%s %s = %d' % (w[0], w[2], c.note, k), t.path)
                    work.append(t)
                st.cq = st.cq + [0]; st.cqi = 0
                st.path = ('%s:%s %s = 0' % (w[0], w[2], c.note), st.path)
            except End as e:
                self.nsteps += steps
                st.steps += steps
                outs.append(Outcome(e.kind, e.val, st)); return
            except Undecided as e:
                self.nsteps += steps
                outs.append(Outcome('undecided', '%s at %s:%s:%s' % ((e,) + tuple(self.where(st)))  , st)); return
            if steps > maxsteps:
                self.nsteps += steps
                outs.append(Outcome('budget', None, st)); return

PUSHED = object()

def agg_layout(ty):
    """[(offset, size)] of a first-level literal struct of scalars"""
    ty = ty.strip()
    if not ty.startswith('{') or ty.count('{') > 1 or '[' in ty or '<' in ty or '%' in ty: return None
    out = []; o = 0
    for f in ty.strip('{} ').split(','):
        f = f.strip()
        s = 8 if f == 'ptr' or f == 'double' else 4 if f == 'float' else (int(f[1:]) + 7) // 8 if f[:1] == 'i' and f[1:].isdigit() else None
        if s is None: return None
        o = (o + s - 1) // s * s
        out.append((o, s)); o += s
    return out

def _mk(m):
    b = bits_of(m)
    s = ''.join(chr(x) if 32 < x < 127 else '\\x%02x' % x for x in b[:12])
    return '[' + s + ('...' if len(b) > 12 else '') + ']'

def _sh(v):
    s = repr(v) if not (type(v) is tuple and v and v[0] == 'c') else 'char ' + str(v[1])
    return s[:60]

def _depth(v):
    if type(v) is tuple: return 1 + max([_depth(x) for x in v if type(x) is tuple] or [0])
    return 0
