"""Models of the external functions generated C code may call (POSIX, AIX and Windows flavours).

Every model returns the list of possible successor states; obligations attached to a call
(open handle, non-empty name, bounded write, literal format string, live descriptor, ...) are
checked when the call is reached.
"""
import re
from engine import uid, Region, _tagof, _has_uid

MARK = b'M4RKER'          # text inside the configured default library name

def fork(st):
    s = st.copy(); st.nforks += 1; s.nforks += 1
    return s

def sym(st, lo=None, hi=None, ne=frozenset()):
    s = uid()
    if lo is not None or hi is not None or ne: st.facts[s] = (lo, hi, frozenset(ne))
    return ('s', s)

def parse_fmt(b):
    """-> list of conversions (spec, stars, suppressed)"""
    out = []; i = 0; s = b
    for m in re.finditer(rb'%(%|([-+ #0*\']*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|j|z|t|L|w|I64)?(m?\[[^\]]*\]|m?[a-zA-Z]))', s):
        if m.group(1) == b'%': continue
        stars = (m.group(3) == b'*') + (m.group(4) == b'*')
        out.append((m.group(6).decode('latin1'), stars, m.group(5), m.group(3), m.group(4)))
    return out

class Models:
    def __init__(self, cfg=None):
        self.cfg = cfg or {}
        self.single = self.cfg.get('single', True)
        self.t = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('m_')}
        self.cxx = None

    def lookup(self, name, fn):
        if name.startswith('llvm.'):
            return self.intrinsic(name)
        if fn is not None and not fn.decl and fn.name not in self.cfg.get('force', ()) and not fn.odr:
            return None
        m = self.t.get(name)
        if m: return m
        if self.cxx and fn is not None:
            return self.cxx.lookup(name, fn)
        return None

    def intrinsic(self, name):
        n = name.split('.')
        if n[1] in ('memcpy', 'memmove'): return self.m_memcpy
        if n[1] == 'memset': return self.m_memset
        if n[1] in ('lifetime', 'dbg', 'va_end', 'assume', 'stackrestore', 'experimental', 'donothing', 'invariant'): return lambda E, st, ins, a: [(st, None)]
        if n[1] == 'va_start':
            return self.va_start
        if n[1] == 'va_copy':
            return self.va_copy
        if n[1] == 'stacksave': return lambda E, st, ins, a: [(st, ('i', 0))]
        if n[1] in ('eh',): return lambda E, st, ins, a: [(st, ('tid', ins['ops'][0][1] if ins['ops'][0][0] == 'g' else None))]
        if n[1] == 'expect': return lambda E, st, ins, a: [(st, a[0])]
        if n[1] in ('trap', 'ubsantrap'): return lambda E, st, ins, a: [(st, ('abort',), 'end')]
        if n[1] == 'objectsize': return lambda E, st, ins, a: [(st, ('i', -1))]
        if n[1] in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub'):
            def ovf(E, st, ins, a):
                if a[0][0] == 'i' and a[1][0] == 'i':
                    v = {'mul': a[0][1] * a[1][1], 'add': a[0][1] + a[1][1], 'sub': a[0][1] - a[1][1]}[n[1][1:]]
                    return [(st, ('a', (('i', v), ('i', 0))))]
                v = E.add(st, a[0], a[1]) if n[1][1:] == 'add' else (E.mul(st, a[0], a[1][1]) if a[1][0] == 'i' else sym(st))
                return [(st, ('a', (v, sym(st, 0, 1))))]
            return ovf
        if n[1] in ('umax', 'umin', 'smax', 'smin'):
            def mm(E, st, ins, a):
                if a[0][0] == 'i' and a[1][0] == 'i': return [(st, ('i', (max if n[1].endswith('max') else min)(a[0][1], a[1][1])))]
                out = []
                for s, r in E.compare(st, 'ult' if n[1][0] == 'u' else 'slt', a[0], a[1], 64, ins):
                    out.append((s, a[0] if r == n[1].endswith('min') else a[1]))
                return out
            return mm
        return None

    # ------------------------------------------------------------ va_list
    def va_start(self, E, st, ins, a):
        p = E.ptr(st, a[0], ins, 'va_start')
        va = st.frames[-1].env.get('va', ())
        r = E.wr(st, p[1]); r.fields = {'va': (0, ('va', tuple(va)))}
        return [(st, None)]
    def va_copy(self, E, st, ins, a):
        va = self.get_va(E, st, a[1])
        p = E.ptr(st, a[0], ins, 'va_copy')
        r = E.wr(st, p[1]); r.fields = {'va': (0, ('va', va))}
        return [(st, None)]
    def get_va(self, E, st, v):
        v = st.res(v)
        if v[0] == 'p' and v[1] in st.mem:
            f = st.mem[v[1]].fields.get('va')
            if f: return f[1][1]
        return None

    # ------------------------------------------------------------ handles
    def open_handles(self, st):
        return [k for k, v in st.tok.items() if k[0] == 'H' and v in ('open', 'closefail')]

    def do_open(self, E, st, ins, namep, flags, ns, wide=False):
        if self.single and self.open_handles(st):
            E.report(st, 'C03', 'open-while-open', 'a library is opened while another one is still open')
        namep = st.res(namep)
        if namep == ('i', 0):
            E.report(st, 'C03', 'open-null', 'a library is opened with a null name'); return []
        c = E.content(st, namep, ins, 'library name')
        if c is None: return []
        if st.emptiness(c) != 'N':
            E.report(st, 'C03', 'open-empty', 'a library is opened with a name that may be empty')
        s2 = fork(st)
        h = ('H', uid())
        st.tok[h] = 'open'
        st.ev += (('open', c, flags, ns, h),)
        s2.ev += (('open', c, flags, ns, None),)
        self.set_dlerr(E, s2, ('dlopen', _tagof(c)))
        st.note('open ok'); s2.note('open fails')
        return [(st, ('p', h, 0)), (s2, ('i', 0))]

    def set_dlerr(self, E, st, why):
        st.misc['dlerr'] = ('c', uid(), ('dlerror', why))

    def m_dlopen(self, E, st, ins, a): return self.do_open(E, st, ins, a[0], a[1], None)
    def m_dlmopen(self, E, st, ins, a): return self.do_open(E, st, ins, a[1], a[2], a[0])

    def check_handle(self, E, st, ins, h, what):
        h = st.res(h)
        if h == ('i', 0):
            E.report(st, 'C03', 'null-handle', '%s is called with a null library handle' % what); return None
        if h[0] == 'p' and h[1][0] == 'H':
            t = st.tok.get(h[1])
            if t is None or t == 'closed' or t == 'dead':
                E.report(st, 'C03', 'closed-handle', '%s is called with a handle that was already closed' % what); return None
            return h[1]
        E.report(st, 'C03', 'bad-handle', '%s is called with a value that is not known to be an open library handle' % what)
        return None

    def do_sym(self, E, st, ins, h, namep):
        k = self.check_handle(E, st, ins, h, 'symbol lookup')
        if k is None: return []
        c = E.content(st, namep, ins, 'symbol name')
        if c is None: return []
        c = self.concrete(st, c)
        name = c[1].decode('latin1') if c[0] == 'lit' else None
        if name is None:
            E.report(st, 'C04', 'symbol-name', 'a symbol is looked up under a name that is not one of the declared names')
        s2 = fork(st); st.note('symbol %s found' % name); s2.note('symbol %s missing' % name)
        st.ev += (('sym', name, k, True),); s2.ev += (('sym', name, k, False),)
        outs = [(st, ('p', ('S', name, k), 0)), (s2, ('i', 0))]
        if self.cfg.get('null_sym', True):
            s3 = fork(s2); s3.note('value is NULL without dlerror')
            outs.append((s3, ('i', 0)))
        self.set_dlerr(E, s2, ('dlsym', name))
        return outs

    def concrete(self, st, c):
        """opaque content whose bytes are all known -> literal"""
        if c[0] in ('c', 'sfx'):
            k0 = c[3] if c[0] == 'sfx' else 0
            l = st.rng(('len', c[1]))
            out = b''; i = k0
            while i < 200:
                f = st.rng(('byte', c[1], i))
                if f[0] is None or f[0] != f[1]: break
                if f[0] == 0: return ('lit', out)
                out += bytes([f[0] & 255]); i += 1
            if l[0] == l[1] and l[0] == i: return ('lit', out)
        return c

    def m_dlsym(self, E, st, ins, a): return self.do_sym(E, st, ins, a[0], a[1])

    def do_close(self, E, st, ins, h, okval, failval):
        k = self.check_handle(E, st, ins, h, 'unload')
        if k is None: return []
        s2 = fork(st); st.note('unload ok'); s2.note('unload fails')
        st.tok[k] = 'closed'; s2.tok[k] = 'closefail'
        st.ev += (('close', k, True),); s2.ev += (('close', k, False),)
        self.set_dlerr(E, s2, ('dlclose',))
        return [(st, okval), (s2, failval)]

    def m_dlclose(self, E, st, ins, a):
        rs = self.do_close(E, st, ins, a[0], ('i', 0), None)
        out = []
        for s, v in rs:
            if v is None: v = sym(s, None, None, {0})
            out.append((s, v))
        return out

    def errptr(self, st, c):
        rid = ('errstr', uid())
        r = Region(None, 'opq', 'opq', tag=('dlerror',)); r.strs[0] = c
        st.mem[rid] = r
        return ('p', rid, 0)

    def m_dlerror(self, E, st, ins, a):
        d = st.misc.get('dlerr')
        if d is None: return [(st, ('i', 0))]
        st.misc['dlerr'] = None
        if d == 'any':   # unknown pending error of an earlier operation
            s2 = fork(st)
            c = st.fresh_content(('old', 'dlerror'), 'N')
            return [(st, self.errptr(st, c)), (s2, ('i', 0))]
        st.set_empt(d, 'N')
        return [(st, self.errptr(st, d))]

    def m_dladdr(self, E, st, ins, a):
        v = st.res(a[0])
        p = E.ptr(st, a[1], ins, 'dladdr')
        if p is None: return []
        ok = v[0] == 'p' and v[1][0] == 'S'
        s2 = fork(st)
        tag = ('dladdr', v[1][2] if ok else None)
        r = E.wr(st, p[1])
        for off in (0, 8, 16, 24):
            if isinstance(p[2], int):
                s = uid(); st.aux[('ptag', s)] = (tag if off == 0 else ('dladdr-other',))
                r.fields[p[2] + off] = (8, ('s', s))
        r.strs = {}
        return [(st, sym(st, 1, 2**31 - 1)), (s2, ('i', 0))]

    def m_dlinfo(self, E, st, ins, a):
        k = self.check_handle(E, st, ins, a[0], 'dlinfo')
        if k is None: return []
        s2 = fork(st)
        self.set_dlerr(E, s2, ('dlinfo',))
        rid = ('linkmap', k)
        if rid not in st.mem: st.mem[rid] = Region(None, 'opq', 'opq', tag=('linkmap', k))
        if not E.store(st, a[2], 8, ('p', rid, 0), ins): return [(s2, ('i', -1))]
        return [(st, ('i', 0)), (s2, ('i', -1))]

    def m_loadquery(self, E, st, ins, a):
        if not E.fits(st, E.ptr(st, a[1], ins, 'loadquery') or a[1], a[2]):
            E.report(st, 'C07', 'oob-write', 'loadquery() is given a size larger than its buffer')
        s2 = fork(st)
        p = E.ptr(st, a[1], ins, 'loadquery')
        if p:
            r = E.wr(st, p[1]); r.fields = {}; r.strs = {}; r.default = 'opq'; r.tag = ('loadquery',)
        return [(st, ('i', 0)), (s2, ('i', -1))]

    # ------------------------------------------------------------ descriptors / streams / heap
    def m_open(self, E, st, ins, a):
        c = E.content(st, a[0], ins, 'open path')
        s2 = fork(st)
        v = sym(st, 3, 2**31 - 1)
        st.tok[('fd', v[1])] = 'open'
        return [(st, v), (s2, ('i', -1))]
    m_open64 = m_open

    def m_close(self, E, st, ins, a):
        v = st.res(a[0])
        k = ('fd', v[1]) if v[0] == 's' else None
        if k is None or k not in st.tok:
            E.report(st, 'C08', 'bad-fd', 'close() of a value that is not an open descriptor'); return [(st, ('i', -1))]
        if st.tok[k] != 'open':
            E.report(st, 'C08', 'double-close', 'descriptor is closed twice'); return [(st, ('i', -1))]
        st.tok[k] = 'closed'
        return [(st, ('i', 0))]

    def m_ioctl(self, E, st, ins, a):
        v = st.res(a[0])
        if v[0] != 's' or st.tok.get(('fd', v[1])) != 'open':
            E.report(st, 'C08', 'bad-fd', 'ioctl() on a descriptor that is not open')
        p = E.ptr(st, a[2], ins, 'ioctl')
        if p is None: return []
        s2 = fork(st)
        r = st.mem[p[1]]
        base = p[2]
        def fld(o, sz=8): return E.load(st, ('p', p[1], base + o), sz, ins)
        # struct procmap_query: size0 flags8 query_addr16 vma_start24 vma_end32 vma_flags40 page48 off56 inode64 maj72 min76 name_size80 build_size84 name_addr88
        qa = fld(16); ns = fld(80, 4); na = fld(88)
        s2.note('ioctl fails'); st.note('ioctl ok')
        if na is not None:
            na = st.res(na)
            if na[0] == 'p':
                if not E.fits(st, na, ns):
                    E.report(st, 'C07', 'oob-write', 'ioctl(PROCMAP_QUERY) may write more bytes than the name buffer holds')
                tag = ('procmaps', st.aux.get(('ptag', qa[1])) if qa[0] == 's' else qa)
                n = sym(st, 0, st.ub(ns))
                out = []
                for s, z in E.compare(st, 'eq', n, ('i', 0), 32, ins):
                    if not z: E.set_string(s, na, s.fresh_content(tag, None))
                    if not z:
                        c = E.content_at(s, s.mem[na[1]], na[2])
                        s.set_empt(c, 'N')
                    r = E.wr(s, p[1]); r.fields[base + 80] = (4, s.res(n))
                    out.append((s, ('i', 0)))
                return out + [(s2, ('i', -1))]
        return [(st, ('i', 0)), (s2, ('i', -1))]

    def m_fopen(self, E, st, ins, a):
        E.content(st, a[0], ins, 'fopen path')
        s2 = fork(st)
        k = ('FILE', uid()); st.tok[k] = 'open'
        st.note('fopen ok'); s2.note('fopen fails')
        return [(st, ('p', k, 0)), (s2, ('i', 0))]
    m_fopen64 = m_fopen

    def chkfile(self, E, st, v, what):
        v = st.res(v)
        if v == ('i', 0):
            E.report(st, 'C08', 'null-deref', 'null stream passed to %s' % what); return False
        if v[0] == 'p' and v[1][0] == 'FILE' and st.tok.get(v[1]) != 'open':
            E.report(st, 'C08', 'use-after-close', 'closed stream passed to %s' % what); return False
        return True

    def m_fclose(self, E, st, ins, a):
        if not self.chkfile(E, st, a[0], 'fclose'): return []
        v = st.res(a[0])
        if v[0] == 'p': st.tok[v[1]] = 'closed'
        return [(st, ('i', 0))]

    def m_getline(self, E, st, ins, a):
        if not self.chkfile(E, st, a[2], 'getline'): return []
        lp = E.load(st, a[0], 8, ins); 
        if lp is None: return []
        E.load(st, a[1], 8, ins)
        lp = st.res(lp)
        if lp[0] == 'u':
            E.report(st, 'C08', 'uninit', 'getline() is given an uninitialised line pointer'); return []
        s2 = fork(st)
        outs = []
        for s, rv in ((st, None), (s2, ('i', -1))):
            if lp == ('i', 0):
                rid = self.newheap(s, None, 'undef')
            else:
                if lp[0] == 'p' and s.mem.get(lp[1]) is not None and s.mem[lp[1]].kind == 'freed':
                    E.report(s, 'C08', 'use-after-free', 'getline() is given a released buffer'); continue
                rid = lp[1]
            r = E.wr(s, rid); r.fields = {}; r.size = None
            s.misc.pop('cmp', None)
            if rv is None:
                r.strs = {0: s.fresh_content(('line',), 'N')}
                rv = sym(s, 1, 2**31)
            else: r.strs = {0: s.fresh_content(('line',))}
            E.store(s, a[0], 8, ('p', rid, 0), ins)
            E.store(s, a[1], 8, sym(s, 0, 2**40), ins)
            outs.append((s, rv))
        return outs
    m___getdelim = None

    def newheap(self, st, size, default):
        rid = ('heap', uid())
        st.mem[rid] = Region(size, default, 'heap', tag=rid)
        st.tok[rid] = 'live'
        return rid

    def oom(self, st):
        if self.cfg.get('ghost_oom'): st.misc['oom'] = True
        if self.cfg.get('oom_event'): st.ev += (('sysfail', 'memory'),)

    def m_malloc(self, E, st, ins, a):
        s2 = fork(st); st.note('malloc ok'); s2.note('malloc fails'); self.oom(s2)
        rid = self.newheap(st, self.szv(st, a[0]), 'undef')
        return [(st, ('p', rid, 0)), (s2, ('i', 0))]
    def szv(self, st, v):
        v = st.res(v)
        return v[1] if v[0] == 'i' else v
    def m_calloc(self, E, st, ins, a):
        s2 = fork(st); st.note('calloc ok'); s2.note('calloc fails'); self.oom(s2)
        n = st.res(a[0]); m = st.res(a[1])
        sz = ('i', n[1] * m[1]) if n[0] == m[0] == 'i' else (E.mul(st, n, m[1]) if m[0] == 'i' else (E.mul(st, m, n[1]) if n[0] == 'i' else sym(st)))
        rid = self.newheap(st, self.szv(st, sz), 'zero')
        return [(st, ('p', rid, 0)), (s2, ('i', 0))]
    def m_realloc(self, E, st, ins, a):
        v = st.res(a[0])
        if v == ('i', 0): return self.m_malloc(E, st, ins, a[1:])
        if v[0] == 'p' and st.tok.get(v[1]) == 'live':
            s2 = fork(st)
            r = E.wr(st, v[1]); r.size = self.szv(st, a[1]); self.oom(s2)
            return [(st, v), (s2, ('i', 0))]
        E.report(st, 'C08', 'bad-free', 'realloc() of a pointer that is not a live heap block'); return []

    def m_free(self, E, st, ins, a):
        v = st.res(a[0])
        if v == ('i', 0): return [(st, None)]
        if v[0] == 'u':
            E.report(st, 'C08', 'uninit', 'free() of an uninitialised pointer'); return []
        if v[0] == 's':
            return [(st, None)]
        t = st.tok.get(v[1]) if v[0] == 'p' else None
        if t == 'live' and v[2] == 0:
            st.tok[v[1]] = 'freed'
            r = E.wr(st, v[1]); r.kind = 'freed'; r.fields = {}; r.strs = {}
            return [(st, None)]
        if t == 'freed': E.report(st, 'C08', 'double-free', 'heap block is released twice')
        else: E.report(st, 'C08', 'bad-free', 'free() of a pointer that is not the start of a heap block')
        return []

    def do_strdup(self, E, st, ins, p, width=1):
        c = E.content(st, p, ins, 'strdup')
        if c is None: return []
        s2 = fork(st); st.note('strdup ok'); s2.note('strdup fails'); self.oom(s2)
        size = len(c[1]) + 1 if c[0] == 'lit' else (('l', ('len', c[1]), 1) if c[0] == 'c' else None)
        rid = self.newheap(st, size, 'undef')
        r = E.wr(st, rid); r.strs[0] = c
        return [(st, ('p', rid, 0)), (s2, ('i', 0))]
    def m_strdup(self, E, st, ins, a): return self.do_strdup(E, st, ins, a[0])
    m___strdup = m_strdup
    def m_strndup(self, E, st, ins, a):
        c = E.content(st, a[0], ins, 'strndup')
        if c is None: return []
        s2 = fork(st)
        rid = self.newheap(st, None, 'undef')
        r = E.wr(st, rid); r.strs[0] = st.fresh_content(('trunc', _tagof(c)))
        return [(st, ('p', rid, 0)), (s2, ('i', 0))]

    # ------------------------------------------------------------ strings
    def length(self, st, c):
        if c[0] == 'lit': return ('i', len(c[1]))
        if c[0] == 'c': return st.res(('s', ('len', c[1])))
        if c[0] == 'sfx': return st.res(('l', ('len', c[1]), -c[3]))
        return sym(st, 0, 2**47)

    def m_strlen(self, E, st, ins, a):
        c = E.content(st, a[0], ins, 'strlen')
        if c is None: return []
        if c[0] == 'sfx':
            l = st.rng(('len', c[1]))
            if (l[0] or 0) < c[3]: st.setrng(('len', c[1]), c[3], l[1], l[2])
        return [(st, self.length(st, c))]

    def cmp(self, E, st, ins, p, q, n=None, mem=False):
        """string comparison with constant/opaque contents"""
        cp = E.content(st, p, ins, 'string comparison'); cq = E.content(st, q, ins, 'string comparison')
        if cp is None or cq is None: return []
        return self.cmp_contents(st, cp, cq, n)
    def cmp_contents(self, st, cp, cq, n=None):
        cp = self.concrete(st, cp); cq = self.concrete(st, cq)
        if cp[0] == 'lit' and cq[0] == 'lit' and (n is None or n[0] == 'i'):
            x, y = cp[1] + b'\0', cq[1] + b'\0'
            if n is not None: x, y = x[:n[1]], y[:n[1]]
            return [(st, ('i', 0 if x == y else (-1 if x < y else 1)))]
        if cp == cq and n is None: return [(st, ('i', 0))]
        op, lit = (cp, cq) if cq[0] == 'lit' else (cq, cp)
        if lit[0] != 'lit' or op[0] not in ('c', 'sfx') or (n is not None and n[0] != 'i'):
            s2 = fork(st)
            st.note('strings equal'); s2.note('strings differ')
            return [(st, ('i', 0)), (s2, sym(s2, None, None, {0}))]
        k0 = op[3] if op[0] == 'sfx' else 0
        data = lit[1] + b'\0'
        if n is not None: data = data[:n[1]]
        s2 = st.copy(); st.nforks += 1; s2.nforks += 1
        ok = True; unk = []
        for i, b in enumerate(data):
            f = st.rng(('byte', op[1], k0 + i))
            if f[0] == f[1] and f[0] is not None:
                if f[0] != b: ok = False; break
                continue
            if b in f[2] or (f[0] is not None and b < f[0]) or (f[1] is not None and b > f[1]): ok = False; break
            unk.append((i, b))
        L = st.rng(('len', op[1]))
        if ok and data.endswith(b'\0'):
            n0 = k0 + len(data) - 1
            if (L[0] is not None and n0 < L[0]) or (L[1] is not None and n0 > L[1]): ok = False
        elif ok and L[1] is not None and L[1] < k0 + len(data): ok = False
        outs = []
        if ok:
            good = True
            for i, b in unk: good = good and st.setrng(('byte', op[1], k0 + i), b, b)
            if data.endswith(b'\0'): good = good and st.setrng(('len', op[1]), k0 + len(data) - 1, k0 + len(data) - 1)
            else: good = good and st.setrng(('len', op[1]), max(L[0] or 0, k0 + len(data)), L[1], L[2])
            if good:
                st.note('strings equal'); outs.append((st, ('i', 0)))
            if not unk: 
                return outs
            if len(unk) == 1:
                i, b = unk[0]
                f = s2.rng(('byte', op[1], k0 + i))
                if not s2.setrng(('byte', op[1], k0 + i), f[0], f[1], f[2] | {b}): return outs
        s2.note('strings differ')
        outs.append((s2, sym(s2, None, None, {0})))
        return outs
    def m_strcmp(self, E, st, ins, a): return self.cmp(E, st, ins, a[0], a[1])
    def m_strncmp(self, E, st, ins, a): return self.cmp(E, st, ins, a[0], a[1], st.res(a[2]))
    def m_memcmp(self, E, st, ins, a): return self.cmp(E, st, ins, a[0], a[1], st.res(a[2]))
    m_bcmp = m_memcmp
    def m_strcasecmp(self, E, st, ins, a):
        if E.content(st, a[0], ins) is None or E.content(st, a[1], ins) is None: return []
        s2 = fork(st)
        return [(st, ('i', 0)), (s2, sym(s2, None, None, {0}))]

    def m_strstr(self, E, st, ins, a):
        c = E.content(st, a[0], ins, 'strstr'); d = E.content(st, a[1], ins, 'strstr')
        if c is None or d is None: return []
        if c[0] == 'lit' and d[0] == 'lit':
            i = c[1].find(d[1])
            p = st.res(a[0])
            return [(st, E.padd(st, p, ('i', i)) if i >= 0 else ('i', 0))]
        s2 = fork(st)
        p = E.ptr(st, a[0], ins, 'strstr')
        return [(st, ('p', p[1], sym(st, 0, None))), (s2, ('i', 0))]
    def m_strchr(self, E, st, ins, a):
        c = E.content(st, a[0], ins, 'strchr')
        if c is None: return []
        p = E.ptr(st, a[0], ins, 'strchr'); ch = st.res(a[1])
        if c[0] == 'lit' and ch[0] == 'i':
            i = (c[1] + b'\0').find(bytes([ch[1] & 255]))
            return [(st, E.padd(st, p, ('i', i)) if i >= 0 else ('i', 0))]
        s2 = fork(st)
        return [(st, ('p', p[1], sym(st, 0, None))), (s2, ('i', 0))]
    m_strrchr = m_strchr

    def m_memset(self, E, st, ins, a):
        p = E.ptr(st, a[0], ins, 'memset')
        if p is None: return []
        n = st.res(a[2])
        if not E.fits(st, p, n):
            r = st.mem[p[1]]
            if not (isinstance(p[2], int) and isinstance(r.size, int) and n[0] == 'i' and p[2] + n[1] <= r.size):
                E.report(st, 'C07', 'oob-write', 'memset() may exceed the destination'); 
        r = E.wr(st, p[1])
        v = st.res(a[1])
        if isinstance(p[2], int) and n[0] == 'i':
            lo, hi = p[2], p[2] + n[1]
            for o in [o for o in r.fields if isinstance(o, int) and lo <= o < hi]: del r.fields[o]
            for o in [o for o in r.strs if isinstance(o, int) and lo <= o < hi]: del r.strs[o]
            if v == ('i', 0):
                if lo == 0 and (r.size is None or n[1] >= (r.size if isinstance(r.size, int) else 1 << 60)): r.default = 'zero'
                else:
                    o = lo
                    while o + 8 <= hi and hi - lo <= 512: r.fields[o] = (8, ('i', 0)); o += 8
                    while o < hi and hi - lo <= 512: r.fields[o] = (1, ('i', 0)); o += 1
                if r.members is not None or r.kind != 'loc': 
                    r.strs[lo] = ('lit', b'')
            else:
                r.strs[lo] = ('unterm', st.fresh_content(('memset',), 'N' if v[0] == 'i' else None))
        else: r.fields = {}; r.strs = {}
        return [(st, a[0])]

    def m_memcpy(self, E, st, ins, a):
        d = E.ptr(st, a[0], ins, 'memcpy'); s = E.ptr(st, a[1], ins, 'memcpy')
        if d is None or s is None: return []
        n = st.res(a[2])
        if n == ('i', 0): return [(st, a[0])]
        rs = st.mem[s[1]]
        if not E.fits(st, d, n):
            rd = st.mem[d[1]]
            if not (isinstance(d[2], int) and isinstance(rd.size, int) and n[0] == 'i' and d[2] + n[1] <= rd.size and not rd.members):
                E.report(st, 'C07', 'oob-write', 'memcpy() may write more bytes than the destination holds')
        if isinstance(s[2], int) and isinstance(rs.size, int) and rs.size:
            u = st.ub(n)
            c0 = E.content_at(st, rs, s[2])
            if (n[0] == 'i' and s[2] + n[1] > rs.size):
                E.report(st, 'C07', 'oob-read', 'memcpy() reads beyond the end of its source')
        if isinstance(d[2], int) and isinstance(s[2], int):
            c = E.content_at(st, rs, s[2])
            if c is not None and c[0] in ('c', 'lit', 'sfx'):
                L = self.length(st, c)
                ln, nn = E.lin(L), E.lin(n)
                if ln and nn and ln[0] == nn[0]:
                    diff = nn[1] - ln[1]
                    if c[0] == 'lit' and n[0] == 'i' and n[1] > len(c[1]) + 1 and rs.kind == 'const': diff = 1
                    if diff >= 1:
                        if diff > 1 and c[0] != 'lit': E.report(st, 'C07', 'oob-read', 'memcpy() reads beyond the terminator of its source')
                        E.set_string(st, d, c)
                    elif c[0] == 'lit':
                        E.set_string(st, d, ('unterm', ('lit', c[1][:max(0, n[1])])))
                    elif diff == 0 and c[0] == 'c': E.set_string(st, d, ('unterm', c))      # all of it, without the terminator
                    else:
                        k = st.fresh_content(('trunc', _tagof(c)), st.emptiness(c) if diff == 0 or st.emptiness(c) == 'N' and (st.lb(n) or 0) >= 1 else None)
                        E.set_string(st, d, ('unterm', k))
                    return [(st, a[0])]
                if rs.kind in ('opq', 'arg', 'heap', 'errstr', 'const') or (n[0] != 'i'):
                    # a copy whose length is not tied to the string length
                    self_ok = False
                    ul = st.ub(L); ln_ = st.lb(n)
                    if ul is not None and ln_ is not None and ln_ > ul: self_ok = True
                    k = c if self_ok else ('unterm', st.fresh_content(('trunc', _tagof(c)), 'N' if (ln_ or 0) >= 1 and st.emptiness(c) == 'N' else None))
                    E.set_string(st, d, k)
                    return [(st, a[0])]
            if n[0] == 'i':
                fl = {o - s[2] + d[2]: fv for o, fv in rs.fields.items() if isinstance(o, int) and s[2] <= o < s[2] + n[1]}
                stt = {o - s[2] + d[2]: c for o, c in rs.strs.items() if isinstance(o, int) and s[2] <= o < s[2] + n[1]}
                ob = rs.default
                if rs.kind == 'const':
                    for o, fv in rs.fields.items():
                        if isinstance(o, tuple) and o[0] == 'bytes' and o[1] <= s[2] < o[1] + fv[0]:
                            b = fv[1][s[2] - o[1]:][:n[1]]
                            if b'\0' in b: stt[d[2]] = ('lit', b.split(b'\0')[0])
                            else: stt[d[2]] = ('unterm', ('lit', b))
                rd = E.wr(st, d[1])
                for o in [o for o in rd.fields if isinstance(o, int) and d[2] <= o < d[2] + n[1]]: del rd.fields[o]
                for o in [o for o in rd.strs if isinstance(o, int) and d[2] <= o < d[2] + n[1]]: del rd.strs[o]
                rd.fields.update(fl); rd.strs.update(stt)
                if rd.default == 'undef' and d[2] == 0 and isinstance(rd.size, int) and n[1] >= rd.size: rd.default = ob if ob != 'const' else 'zero'; rd.tag = rd.tag or rs.tag
                return [(st, a[0])]
        rd = E.wr(st, d[1]); rd.fields = {}; rd.strs = {}; rd.default = 'opq' if rd.default == 'undef' else rd.default
        if isinstance(d[2], int): rd.strs[d[2]] = ('unterm', st.fresh_content(('copy',)))
        return [(st, a[0])]
    m_memmove = m_memcpy
    def m_mempcpy(self, E, st, ins, a):
        return [(s, E.padd(s, s.res(a[0]), s.res(a[2]))) for s, v in self.m_memcpy(E, st, ins, a)]

    def m_strcpy(self, E, st, ins, a):
        d = E.ptr(st, a[0], ins, 'strcpy'); c = E.content(st, a[1], ins, 'strcpy')
        if d is None or c is None: return []
        if not E.fits(st, d, E.add(st, self.length(st, c), ('i', 1))):
            E.report(st, 'C07', 'oob-write', 'strcpy() may write more bytes than the destination holds')
        E.set_string(st, d, c)
        return [(st, a[0])]
    def m_stpcpy(self, E, st, ins, a):
        return [(s, ('s', uid())) for s, v in self.m_strcpy(E, st, ins, a)]
    def m_strncpy(self, E, st, ins, a):
        d = E.ptr(st, a[0], ins, 'strncpy'); c = E.content(st, a[1], ins, 'strncpy')
        if d is None or c is None: return []
        n = st.res(a[2])
        if not E.fits(st, d, n): E.report(st, 'C07', 'oob-write', 'strncpy() is given a size larger than its destination')
        L = self.length(st, c)
        u, l = st.ub(L), st.lb(n)
        if u is not None and l is not None and u < l: E.set_string(st, d, c)
        elif c[0] == 'c' and n[0] == 'i' and n[1] > 0:
            s2 = fork(st); sid = ('len', c[1]); f = st.rng(sid); outs = []
            if st.setrng(sid, f[0], n[1] - 1, f[2]):
                E.set_string(st, d, c); outs.append((st, a[0]))
            if u is not None and u <= n[1]:
                if s2.setrng(sid, n[1], n[1]): E.set_string(s2, d, ('unterm', c)); outs.append((s2, a[0]))
            elif s2.setrng(sid, max(f[0] or 0, n[1]), f[1], f[2]):
                E.set_string(s2, d, ('unterm', s2.fresh_content(('trunc', _tagof(c)), 'N'))); outs.append((s2, a[0]))
            return outs
        else:
            k = st.fresh_content(('trunc', _tagof(c)), st.emptiness(c) if n != ('i', 0) else None)
            E.set_string(st, d, ('unterm', k))
        return [(st, a[0])]
    def m_strcat(self, E, st, ins, a):
        d = E.ptr(st, a[0], ins, 'strcat'); c = E.content(st, a[1], ins, 'strcat'); o = E.content(st, a[0], ins, 'strcat')
        if d is None or c is None or o is None: return []
        tot = E.add(st, E.add(st, self.length(st, c), self.length(st, o)), ('i', 1))
        if not E.fits(st, d, tot): E.report(st, 'C07', 'oob-write', 'strcat() may write more bytes than the destination holds')
        k = st.fresh_content(('cat', _tagof(o), _tagof(c)))
        if 'N' in (st.emptiness(o), st.emptiness(c)): st.set_empt(k, 'N')
        E.set_string(st, d, k)
        return [(st, a[0])]
    def m_strncat(self, E, st, ins, a):
        E.report(st, 'C07', 'oob-write', 'strncat() result cannot be bounded') if not self._strncat_ok(E, st, ins, a) else None
        d = E.ptr(st, a[0], ins, 'strncat'); c = E.content(st, a[1], ins, 'strncat'); o = E.content(st, a[0], ins, 'strncat')
        if d is None or c is None or o is None: return []
        k = st.fresh_content(('cat', _tagof(o), _tagof(c)))
        if st.emptiness(o) == 'N': st.set_empt(k, 'N')
        E.set_string(st, d, k)
        return [(st, a[0])]
    def _strncat_ok(self, E, st, ins, a):
        d = E.ptr(st, a[0], ins, 'strncat')
        if d is None: return True
        o = E.content_at(st, st.mem[d[1]], d[2]) if isinstance(d[2], int) else None
        if o is None: o = ('c', uid(), None)
        return E.fits(st, d, E.add(st, E.add(st, self.length(st, o), st.res(a[2])), ('i', 1)))

    # ------------------------------------------------------------ formatted output
    def fmt(self, E, st, ins, p, what):
        """literal format or None (reported)"""
        p = st.res(p)
        if p == ('i', 0):
            E.report(st, 'C08', 'null-deref', 'null format passed to %s' % what); return None
        if p[0] == 'p' and p[1] in st.mem and st.mem[p[1]].kind == 'const':
            c = E.content(st, p, ins, what)
            if c and c[0] == 'lit':
                if MARK in c[1]:
                    E.report(st, 'C07', 'config-format', 'configured library name becomes part of a format string of %s' % what)
                return c[1]
        E.report(st, 'C07', 'format-string', '%s is given a format string that is not a literal' % what)
        return None

    def fmtargs(self, E, st, ins, f, args, what):
        """check arguments; returns list of contents/tags"""
        out = []; i = 0
        if args is None: return None
        for spec, stars, lenmod, w, pr in parse_fmt(f):
            i += stars
            if i >= len(args):
                E.report(st, 'C07', 'format-args', 'format of %s consumes more arguments than are passed' % what); return out
            v = st.res(args[i]); i += 1
            if spec in ('s', 'S'):
                if v[0] in ('i',) and v != ('i', 0) or v[0] == 'fp':
                    E.report(st, 'C07', 'format-args', 'format of %s prints a number as a string' % what); continue
                c = E.content(st, v, ins, what)
                if c is None: return None
                out.append(c)
            elif spec == 'n':
                E.report(st, 'C07', 'format-args', '%%n in a format of %s' % what)
            else:
                if v[0] == 'p' and spec in 'diu': E.report(st, 'C07', 'format-args', 'format of %s prints a pointer as a number' % what)
                out.append(('num', v))
        return out

    def fmt_content(self, st, f, cs):
        lits = re.sub(rb'%(?:[^%a-zA-Z]*[a-zA-Z])', b'', f.replace(b'%%', b'x'))
        if f == b'%s' and cs and len(cs) == 1: return cs[0]
        tag = ('fmt', f, tuple(_tagof(c) if c[0] != 'num' else ('num', c[1]) for c in (cs or [])))
        c = st.fresh_content(tag)
        if lits or any(x[0] == 'num' for x in (cs or [])) or any(x[0] != 'num' and st.emptiness(x) == 'N' for x in (cs or [])): st.set_empt(c, 'N')
        return c

    def do_snprintf(self, E, st, ins, d, size, f, args, what='snprintf', trunc=True):
        d = st.res(d); size = st.res(size)
        lit = self.fmt(E, st, ins, f, what)
        cs = self.fmtargs(E, st, ins, lit, args, what) if lit is not None else []
        if cs is None and args is not None: return []
        if d == ('i', 0):
            return [(st, sym(st, 0, 2**31 - 1))]
        d = E.ptr(st, d, ins, what)
        if d is None: return []
        c = self.fmt_content(st, lit, cs) if lit is not None else st.fresh_content(('fmt?',))
        if not E.fits(st, d, size):
            # exact fit through known content length is fine as well
            E.report(st, 'C07', 'oob-write', '%s() is given a size larger than its destination' % what)
        ul = st.ub(self.length(st, c)) if c[0] in ('lit', 'c', 'sfx') else None
        ls = st.lb(size)
        if size == ('i', 0):
            return [(st, sym(st, 0, 2**31 - 1))]
        e = st.emptiness(c)
        if c[0] == 'lit' and ls is not None and len(c[1]) < ls: k = c
        else:
            k = ('c', uid(), _tagof(c))
            if e: 
                if e == 'N' and (ls is None or ls < 2): pass
                else: st.set_empt(k, e)
            elif c[0] == 'c':
                # emptiness of the copy follows the source
                s2 = fork(st)
                a1 = st.set_empt(c, 'E') and st.set_empt(k, 'E')
                a2 = s2.set_empt(c, 'N') and s2.set_empt(k, 'N')
                outs = []
                for s, ok in ((st, a1), (s2, a2)):
                    if ok:
                        E.set_string(s, d, k); outs.append((s, sym(s, 0, 2**31 - 1)))
                return outs
            if ls is not None: st.setrng(('len', k[1]), st.rng(('len', k[1]))[0], max(0, (st.ub(size) or 2**31) - 1), frozenset())
        E.set_string(st, d, k)
        return [(st, sym(st, 0, 2**31 - 1))]

    def m_snprintf(self, E, st, ins, a): return self.do_snprintf(E, st, ins, a[0], a[1], a[2], a[3:])
    def m_vsnprintf(self, E, st, ins, a): return self.do_snprintf(E, st, ins, a[0], a[1], a[2], self.get_va(E, st, a[3]), 'vsnprintf')
    def m_sprintf(self, E, st, ins, a):
        d = E.ptr(st, a[0], ins, 'sprintf'); f = self.fmt(E, st, ins, a[1], 'sprintf')
        if d is None: return []
        cs = self.fmtargs(E, st, ins, f, a[2:], 'sprintf') if f is not None else []
        if cs is None: return []
        ok = False
        if f is not None:
            lits = re.sub(rb'%(?:[^%a-zA-Z]*[a-zA-Z])', b'', f)
            tot = ('i', len(lits) + 1)
            for c in cs: tot = E.add(st, tot, self.length(st, c) if c[0] != 'num' else ('i', 24))
            ok = E.fits(st, d, tot)
        if not ok: E.report(st, 'C07', 'oob-write', 'sprintf() may write more bytes than the destination holds')
        E.set_string(st, d, self.fmt_content(st, f, cs) if f is not None else st.fresh_content(('fmt?',)))
        return [(st, sym(st, 0, 2**31 - 1))]

    def out_event(self, E, st, ins, stream, f, args, what):
        v = st.res(stream) if stream is not None else None
        if v is not None and not self.chkfile(E, st, v, what): return []
        lit = self.fmt(E, st, ins, f, what)
        cs = self.fmtargs(E, st, ins, lit, args, what) if lit is not None else []
        if cs is None and args is not None: return []
        name = None
        if v is not None and v[0] == 's':
            t = st.aux.get(('ptag', v[1])); name = t[1][1] if t and t[0] == 'ld' and t[1] and t[1][0] == 'ext' else None
        elif v is not None and v[0] == 'p' and v[1] and v[1][0] == 'opq':
            name = 'stderr'
        st.ev += (('print', name or 'stdout', lit, tuple(cs or ())),)
        return [(st, sym(st, 0, 2**31 - 1))]
    def m_fprintf(self, E, st, ins, a): return self.out_event(E, st, ins, a[0], a[1], a[2:], 'fprintf')
    def m_vfprintf(self, E, st, ins, a): return self.out_event(E, st, ins, a[0], a[1], self.get_va(E, st, a[2]), 'vfprintf')
    def m_printf(self, E, st, ins, a): return self.out_event(E, st, ins, None, a[0], a[1:], 'printf')
    def m_fputs(self, E, st, ins, a):
        c = E.content(st, a[0], ins, 'fputs')
        if c is None: return []
        st.ev += (('print', 'stderr', b'%s', (c,)),)
        return [(st, ('i', 1))]
    def m_puts(self, E, st, ins, a):
        c = E.content(st, a[0], ins, 'puts')
        if c is None: return []
        st.ev += (('print', 'stdout', b'%s', (c,)),)
        return [(st, ('i', 1))]
    def m_fputc(self, E, st, ins, a): return [(st, ('i', 10))]
    m_putc = m_putchar = m_fputc
    def m_fwrite(self, E, st, ins, a):
        c = E.content(st, a[0], ins, 'fwrite')
        if c is None: return []
        st.ev += (('print', 'stderr', b'%s', (c,)),)
        return [(st, st.res(a[2]))]
    def m_fflush(self, E, st, ins, a): return [(st, ('i', 0))]
    def m_perror(self, E, st, ins, a):
        st.ev += (('print', 'stderr', b'%s', ()),)
        return [(st, None)]

    def m___isoc99_sscanf(self, E, st, ins, a):
        src = E.content(st, a[0], ins, 'sscanf')
        if src is None: return []
        f = self.fmt(E, st, ins, a[1], 'sscanf')
        if f is None: return []
        conv = []
        for m in re.finditer(rb'%(\*)?(\d+)?(m)?(hh|h|ll|l|j|z|t|L)?(\[\^?\]?[^\]]*\]|[a-zA-Z%])', f):
            if m.group(5) == b'%' or m.group(1): continue
            conv.append((m.group(5)[:1].decode(), int(m.group(2)) if m.group(2) else None, bool(m.group(3)), m.group(4)))
        if len(conv) > len(a) - 2:
            E.report(st, 'C07', 'format-args', 'sscanf format stores more values than it has arguments'); return []
        outs = [(st, ('i', -1))]
        cur = st.copy()
        base = st.copy()
        s0 = st
        prev = base
        for k in range(0, len(conv) + 1):
            s = prev.copy(); s.nforks += 1
            if k > 0:
                t, width, alloc, lm = conv[k - 1]
                dst = a[1 + k]
                p = E.ptr(s, dst, ins, 'sscanf')
                if p is None: break
                tag = ('scan', _tagof(src), k - 1)
                if alloc:
                    rid = self.newheap(s, None, 'undef')
                    r = E.wr(s, rid); r.strs[0] = s.fresh_content(tag, 'N')
                    E.store(s, p, 8, ('p', rid, 0), ins)
                elif t in ('[', 's', 'c'):
                    if t != 'c' and width is None:
                        E.report(s, 'C07', 'oob-write', 'sscanf reads a string without a width limit')
                    w = (width or 1) + (0 if t == 'c' else 1)
                    if width is not None and not E.fits(s, p, ('i', w)):
                        E.report(s, 'C07', 'oob-write', 'sscanf field width exceeds its destination buffer')
                    c = s.fresh_content(tag, 'N')
                    E.set_string(s, p, ('unterm', c) if t == 'c' else c)
                else:
                    sz = {b'j': 8, b'l': 8, b'll': 8, b'z': 8, b't': 8, b'h': 2, b'hh': 1}.get(lm, 8 if t == 'p' else 4)
                    v = sym(s); s.aux[('ptag', v[1])] = tag
                    E.store(s, p, sz, v, ins)
            prev = s
            s2 = s.copy(); s2.note('sscanf -> %d' % k)
            outs.append((s2, ('i', k)))
        st.nforks += 1
        return outs
    m_sscanf = m___isoc99_sscanf
    m___isoc23_sscanf = m___isoc99_sscanf

    # ------------------------------------------------------------ process
    def m_exit(self, E, st, ins, a): return [(st, ('exit', st.res(a[0])), 'end')]
    m__exit = m__Exit = m_quick_exit = m_exit
    def m_abort(self, E, st, ins, a): return [(st, ('abort',), 'end')]
    def m_atexit(self, E, st, ins, a):
        s2 = fork(st)
        f = st.res(a[0])
        st.misc['atexit'] = st.misc.get('atexit', ()) + (f,)
        st.note('atexit ok'); s2.note('atexit fails')
        return [(st, ('i', 0)), (s2, sym(s2, None, None, {0}))]
    def m_getenv(self, E, st, ins, a):
        s = uid(); st.aux[('ptag', s)] = ('env',)
        return [(st, ('s', s))]
    def m___errno_location(self, E, st, ins, a):
        rid = ('errno',)
        if rid not in st.mem: st.mem[rid] = Region(4, 'opq', 'opq', tag=('errno',))
        return [(st, ('p', rid, 0))]
    def m_strerror(self, E, st, ins, a):
        return [(st, self.errptr(st, st.fresh_content(('strerror',), 'N')))]
    def m_getpid(self, E, st, ins, a): return [(st, sym(st, 1, 2**31))]

del Models.m___getdelim

import models_win
models_win.install(Models, fork, sym)
