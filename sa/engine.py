"""Path-sensitive abstract interpreter (typestate + constant/interval propagation) over LLVM IR.

The abstract domain is a disjunction of abstract states; every state maps SSA values and memory
cells to abstract values, keeps interval facts for opaque values and a typestate for every
resource token (library handle, descriptor, stream, heap block).  External functions are
replaced by models that produce one successor state per possible outcome.  Loops whose exit is
decided by opaque values are widened, so the fixpoint covers every iteration count; there is no
solver and nothing is executed.

Values
  ('i', n)            integer (null pointer = ('i', 0))
  ('p', rid, off)     pointer into region rid; off is int, ('s',sid) or ('l',sid,k)
  ('f', name)         function address
  ('s', sid)          opaque value
  ('l', sid, k)       opaque + constant
  ('u',)              undefined
  ('a', (v,...))      aggregate
  ('str', content)    std::string object held in a field
Contents of NUL-terminated strings
  ('lit', bytes) | ('c', uid, tag) | ('sfx', uid, tag, k) | ('unterm', content) | ('undef',)
uids are ('#', n); they are renamed canonically when states are compared.
"""
import itertools, re
from ir import operands

class Abort(Exception):
    pass

class Budget(Exception):
    pass

_cnt = itertools.count(1)
def uid(): return ('#', next(_cnt))

INT_MAX = {8: 255, 16: 65535, 32: 2**31 - 1, 64: 2**63 - 1, 1: 1}

class Region:
    __slots__ = ('size', 'default', 'fields', 'strs', 'kind', 'members', 'tag', 'name', 'ck')
    def __init__(self, size, default, kind, tag=None, members=None, name=''):
        self.size = size; self.default = default; self.kind = kind
        self.fields = {}; self.strs = {}; self.members = members; self.tag = tag; self.name = name; self.ck = None
    def copy(self):
        r = Region(self.size, self.default, self.kind, self.tag, self.members, self.name)
        r.fields = dict(self.fields); r.strs = dict(self.strs)
        return r

class Frame:
    __slots__ = ('fn', 'blk', 'prev', 'idx', 'env', 'call', 'visits', 'seq')
    def copy(self):
        f = Frame()
        f.fn = self.fn; f.blk = self.blk; f.prev = self.prev; f.idx = self.idx
        f.env = dict(self.env); f.call = self.call; f.visits = dict(self.visits); f.seq = self.seq
        return f

class State:
    __slots__ = ('frames', 'mem', 'facts', 'rel', 'bind', 'tok', 'misc', 'aux', 'ev', 'path', 'nforks', 'exc')
    def __init__(self):
        self.frames = []; self.mem = {}; self.facts = {}; self.rel = {}; self.bind = {}
        self.tok = {}; self.misc = {}; self.aux = {}; self.ev = (); self.path = None; self.nforks = 0; self.exc = None
    def copy(self):
        s = State()
        s.frames = self.frames[:-1] + [self.frames[-1].copy()] if self.frames else []
        # deeper frames are copied lazily on pop
        s.mem = dict(self.mem); s.facts = dict(self.facts); s.rel = dict(self.rel); s.bind = dict(self.bind)
        s.tok = dict(self.tok); s.misc = dict(self.misc); s.aux = dict(self.aux); s.ev = self.ev; s.path = self.path
        s.nforks = self.nforks; s.exc = self.exc
        return s
    def trace(self):
        out = []; p = self.path
        while p is not None:
            out.append(p[0]); p = p[1]
        return out[::-1]
    def note(self, x):
        self.path = (x, self.path)

    # ---- facts
    def rng(self, sid):
        if sid in self.facts: return self.facts[sid]
        if isinstance(sid, tuple):
            if sid[0] == 'byte': return (0, 255, frozenset())
            if sid[0] == 'len': return (0, 2**47, frozenset())
        return (None, None, frozenset())
    def setrng(self, sid, lo, hi, ne=frozenset()):
        while lo is not None and lo in ne: lo += 1
        while hi is not None and hi in ne: hi -= 1
        if lo is not None and hi is not None and lo > hi: return False
        self.facts[sid] = (lo, hi, ne)
        if isinstance(sid, tuple) and len(sid) > 1:
            if sid[0] == 'byte' and sid[2] == 0:
                l = self.rng(('len', sid[1]))
                if lo == 0 and hi == 0:
                    if l[0] and l[0] > 0: return False
                    self.facts[('len', sid[1])] = (0, 0, frozenset())
                elif lo is not None and lo > 0 or 0 in ne:
                    if l[1] == 0: return False
                    if not l[0]: self.facts[('len', sid[1])] = (1, l[1], l[2])
            if sid[0] == 'len':
                b = self.rng(('byte', sid[1], 0))
                if hi == 0:
                    if 0 in b[2] or (b[0] or 0) > 0: return False
                    self.facts[('byte', sid[1], 0)] = (0, 0, frozenset())
                elif lo and lo > 0:
                    if b[1] == 0: return False
                    if not b[0]: self.facts[('byte', sid[1], 0)] = (1, b[1], b[2])
        return True
    def res(self, v):
        """resolve a value through bindings and singleton facts"""
        k = v[0]
        if k == 's':
            b = self.bind.get(v[1])
            if b is not None: return self.res(b)
            f = self.facts.get(v[1])
            if f is not None and f[0] is not None and f[0] == f[1]: return ('i', f[0])
        elif k == 'l':
            b = self.bind.get(v[1])
            f = self.facts.get(v[1])
            if f is not None and f[0] is not None and f[0] == f[1]: return ('i', f[0] + v[2])
        elif k == 'p' and not isinstance(v[2], int):
            o = self.res(v[2])
            if o[0] == 'i': return ('p', v[1], o[1])
        return v
    def ub(self, v):
        v = self.res(v)
        if v[0] == 'i': return v[1]
        if v[0] == 's': return self.rng(v[1])[1]
        if v[0] == 'l':
            h = self.rng(v[1])[1]
            return None if h is None else h + v[2]
        return None
    def lb(self, v):
        v = self.res(v)
        if v[0] == 'i': return v[1]
        if v[0] == 's': return self.rng(v[1])[0]
        if v[0] == 'l':
            h = self.rng(v[1])[0]
            return None if h is None else h + v[2]
        return None

    # ---- contents
    def emptiness(self, c):
        """'E','N' or None (unknown)"""
        if c[0] == 'lit': return 'E' if c[1] == b'' else 'N'
        if c[0] == 'c':
            f = self.rng(('byte', c[1], 0))
            if f[1] == 0: return 'E'
            if (f[0] or 0) > 0 or 0 in f[2]: return 'N'
            l = self.rng(('len', c[1]))
            if l[1] == 0: return 'E'
            if l[0]: return 'N'
            return None
        if c[0] == 'unterm': return self.emptiness(c[1])
        return None
    def set_empt(self, c, e):
        """refine emptiness; False if contradictory"""
        cur = self.emptiness(c)
        if cur is not None: return cur == e
        if c[0] != 'c': return True
        if e == 'E': return self.setrng(('byte', c[1], 0), 0, 0)
        f = self.rng(('byte', c[1], 0))
        return self.setrng(('byte', c[1], 0), 1, f[1] or 255, f[2])
    def fresh_content(self, tag, e=None):
        c = ('c', uid(), tag)
        if e: self.set_empt(c, e)
        return c

    # ---- canonical key
    def key(self, live):
        ren = {}; order = []
        def cn(v):
            if isinstance(v, tuple):
                if not v: return v
                k0 = v[0]
                if k0 == 'i' or k0 == 'lit': return v
                if k0 == '#' and len(v) == 2:
                    r = ren.get(v)
                    if r is None:
                        r = ren[v] = ('#', -len(ren) - 1); order.append(v)
                    return r
                if v and v[0] in ('s', 'l', 'p') and len(v) > 1:
                    w = self.res(v) if v[0] != 'p' or len(v) == 3 else v
                    if w is not v: return cn(w)
                    if v[0] == 'p': pend.append(v[1])
                return tuple(cn(x) for x in v)
            return v
        pend = []
        fk = []
        for n, f in enumerate(self.frames):
            lv = live(f, n == len(self.frames) - 1)
            fk.append((f.fn.name, f.blk, f.prev if n == len(self.frames) - 1 and False else 0, f.idx, tuple((i, cn(f.env[i])) for i in lv if i in f.env)))
        mk = []
        done = set()
        def reg(rid):
            r = self.mem[rid]
            if r.kind == 'const': return
            if r.fields:
                dead = [o for o in r.fields if isinstance(o, tuple) and o[0] in ('s', 'l') and _has_uid(o) and _ren_known(o[1], ren) is None]
                if dead:        # cells at offsets nobody can name any more
                    r = self.mem[rid] = r.copy()
                    for o in dead: del r.fields[o]
                    r.ck = None
            ck = r.ck
            if ck is None or ck[0] != len(r.fields) or ck[1] != len(r.strs):
                fo = [(o, str(o)) for o in sorted(r.fields, key=str)]; so = [(o, str(o)) for o in sorted(r.strs, key=str)]
                plain = not isinstance(r.size, tuple) and all(isinstance(v, bytes) or v[0] in ('i', 'f', 'z', 'u') for _, v in r.fields.values()) and all(c[0] == 'lit' for c in r.strs.values())
                ck = r.ck = (len(r.fields), len(r.strs), fo, so,
                             (r.kind, r.size, tuple((n, r.fields[o][0], r.fields[o][1]) for o, n in fo), tuple((n, r.strs[o]) for o, n in so)) if plain else None)
            if ck[4] is not None: mk.append((cn(rid), ck[4])); return
            mk.append((cn(rid), r.kind, cn(r.size) if isinstance(r.size, tuple) else r.size,
                       tuple((n, r.fields[o][0], cn(r.fields[o][1])) for o, n in ck[2]),
                       tuple((n, cn(r.strs[o])) for o, n in ck[3])))
        named = sorted((rid for rid in self.mem if not _has_uid(rid)), key=str)
        for rid in named:
            done.add(rid); reg(rid)
        tk0 = [(k, v) for k, v in self.tok.items()]
        while pend:
            rid = pend.pop()
            if rid in done or rid not in self.mem: continue
            done.add(rid); reg(rid)
        rest = 0
        for rid in self.mem:
            if rid not in done and self.mem[rid].kind == 'heap': rest += 1
        def gone(k):
            return (k[1] if isinstance(k, tuple) and len(k) > 1 else k) not in ren and _has_uid(k)
        # resources that are already released and no longer referenced are irrelevant
        dropped = [k for k, v in tk0 if v in ('dead', 'freed', 'closed') and gone(k)]
        for k in dropped:
            del self.tok[k]
            if k in self.mem and k[0] == 'heap': del self.mem[k]
        tk = tuple(sorted((str(cn(k)), str(cn(v))) for k, v in tk0 if v != 'dead' and k in self.tok))
        ms = tuple((k, str(cn(tuple(sorted(self.misc[k], key=str)) if isinstance(self.misc[k], frozenset) else self.misc[k]))) for k in sorted(self.misc, key=str))
        ek = cn(self.ev)
        fx = []; drop = []
        for sid, f in self.facts.items():
            c = _ren_known(sid, ren)
            if c is None:
                if f[0] is None or f[0] != f[1] or sid[:1] in (('byte',), ('len',)): drop.append(sid)
            if c is not None: fx.append((str(c), f[0] if f[0] is not None else -1, f[1] if f[1] is not None else -1, tuple(sorted(f[2]))))
        for sid in drop: del self.facts[sid]
        rl = []
        for k, b in list(self.rel.items()):
            c = _ren_known(k, ren)
            if c is None: del self.rel[k]
            if c is not None: rl.append((str(c), b))
        return (tuple(fk), tuple(mk), rest, tk, ms, ek, tuple(sorted(fx)), tuple(sorted(rl)), cn(self.exc) if self.exc else None)

def _has_uid(v):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == '#': return True
        return any(_has_uid(x) for x in v)
    return False

def _ren_known(v, ren):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == '#': return ren.get(v)
        out = []
        for x in v:
            y = _ren_known(x, ren)
            if y is None and isinstance(x, tuple): return None
            out.append(y)
        return tuple(out)
    return v

class Outcome:
    __slots__ = ('kind', 'val', 'st')
    def __init__(self, kind, val, st):
        self.kind = kind; self.val = val; self.st = st

class Violation:
    def __init__(self, prop, rule, where, msg, trace):
        self.prop = prop; self.rule = rule; self.where = where; self.msg = msg; self.trace = trace
    def key(self):
        return (self.prop, self.rule, self.where, self.msg)

class Engine:
    def __init__(self, mod, models, inline_pred=None, max_states=60000):
        self.mod = mod; self.models = models
        self.viol = {}
        self._thr = {}; self.funcs_seen = set(); self.unmodelled = {}; self.sites = set()
        self.npaths = 0; self.nsteps = 0
        self.max_states = max_states
        self.inline_pred = inline_pred
        self._live = {}
        self._inl = {}
        self.model_cache = {}
        self._work = None
        self.hooks = {}

    # ------------------------------------------------------------------ reporting
    def loc(self, st, ins=None):
        for f in reversed(st.frames):
            file, line = f.fn.where(ins if f is st.frames[-1] else None)
            if ins is None or f is not st.frames[-1]:
                b = f.fn.blocks[f.blk]['i']
                if f.idx < len(b): file, line = f.fn.where(b[f.idx])
            return (f.fn.dname or f.fn.dem, file, line)
        return ('?', '', 0)

    def report(self, st, prop, rule, msg, where=None):
        w = where or self.loc(st)
        v = Violation(prop, rule, w, msg, st.trace()[-40:])
        self.viol.setdefault(v.key(), v)

    # ------------------------------------------------------------------ memory
    def global_region(self, st, g):
        rid = ('g', g)
        if rid not in st.mem:
            G = self.mod.globals.get(g)
            if G is None: raise Abort('global ' + g)
            if G.get('const') and 'init' in G:
                r = Region(G['size'], 'zero', 'const', name=g)
            elif 'init' in G:
                r = Region(G['size'], 'zero', 'glob', members=G.get('members'), name=G.get('name', g))
            else:
                r = Region(G['size'] or None, 'opq', 'ext', tag=('ext', g), members=G.get('members'), name=g)
            if 'init' in G:
                flat, by, z = self.mod.constdata(g)
                for off, o in flat.items():
                    if off == 'z': continue
                    v = self.const(st, o)
                    if v == ('u',): continue
                    r.fields[off] = (self.opsize(o), v)
                for off, b in by.items():
                    r.fields[('bytes', off)] = (len(b), b)
                    if r.kind != 'const':
                        r.strs[off] = ('lit', b.split(b'\0')[0])
            st.mem[rid] = r
        return rid

    def opsize(self, o):
        if o[0] == 'i': return max(1, o[2] // 8)
        return 8

    def const(self, st, o):
        k = o[0]
        if k == 'i': return ('i', o[1])
        if k == 'n': return ('i', 0)
        if k == 'g':
            return ('p', self.global_region(st, o[1]), o[2])
        if k == 'f': return ('f', o[1])
        if k == 'u': return ('u',)
        if k == 'fp': return ('i', hash(o[1]) & 0xffffffff) if False else ('fp', o[1])
        if k == 'z': return ('z',)
        if k == 'agg': return ('a', tuple(self.const(st, x) for x in o[1]))
        if k in ('s',): return ('u',)
        if k == 'm': return ('u',)
        return ('s', uid())

    def val(self, st, o):
        if o[0] == 'v':
            v = st.frames[-1].env.get(o[1])
            if v is None: raise Abort('unset ssa %s in %s' % (o[1], st.frames[-1].fn.name))
            return st.res(v)
        return self.const(st, o)

    def wr(self, st, rid):
        r = st.mem[rid].copy(); st.mem[rid] = r
        return r

    def materialise(self, st, v, ins=None, why='dereference'):
        """opaque pointer -> opaque region; reports possible null"""
        sid = v[1]
        lo, hi, ne = st.rng(sid)
        if not ((lo or 0) > 0 or 0 in ne):
            self.null_deref(st, v, ins, why)
            ne = ne | {0}
            if not st.setrng(sid, lo, hi, ne): return None
        tag = st.aux.get(('ptag', sid), ('opq', sid))
        rid = ('opq', sid if _has_uid(sid) else uid())
        if rid not in st.mem:
            r = Region(None, 'opq', 'opq', tag=tag)
            st.mem[rid] = r
        st.bind[sid] = ('p', rid, 0)
        return ('p', rid, 0)

    def null_deref(self, st, v, ins, why):
        self.report(st, 'C08', 'null-deref', 'pointer that may be null is used (%s)' % why, self.loc(st, ins))

    def ptr(self, st, v, ins, why):
        """normalise a pointer operand to ('p',...) or None when path dies"""
        v = st.res(v)
        if v == ('i', 0):
            self.report(st, 'C08', 'null-deref', 'null pointer is used (%s)' % why, self.loc(st, ins)); return None
        if v[0] == 's': return self.materialise(st, v, ins, why)
        if v[0] == 'l':
            b = self.materialise(st, ('s', v[1]), ins, why)
            return b and ('p', b[1], v[2])
        if v[0] == 'u':
            self.report(st, 'C08', 'uninit', 'uninitialised pointer is used (%s)' % why, self.loc(st, ins)); return None
        if v[0] == 'i':
            self.report(st, 'C08', 'null-deref', 'invalid pointer is used (%s)' % why, self.loc(st, ins)); return None
        if v[0] == 'p' and v[1] in st.mem and st.mem[v[1]].kind == 'freed':
            self.report(st, 'C08', 'use-after-free', 'memory is used after it was released (%s)' % why, self.loc(st, ins)); return None
        if v[0] == 'p' and v[1] not in st.mem:
            if v[1][0] == 'loc':
                self.report(st, 'C08', 'dangling-local', 'pointer to a dead local variable is used (%s)' % why, self.loc(st, ins)); return None
            # opaque tokens (symbols, handles, streams)
            st.mem[v[1]] = Region(None, 'opq', 'opq', tag=v[1])
        return v

    def load(self, st, p, size, ins, ty=None):
        p = self.ptr(st, p, ins, 'load')
        if p is None: return None
        if p[0] == 'f': return ('s', uid())
        r = st.mem[p[1]]; off = p[2]
        if not isinstance(off, int):
            off = st.res(off)
            off = off[1] if off[0] == 'i' else off
        if isinstance(off, int):
            if isinstance(r.size, int) and r.size and (off < 0 or off + size > r.size):
                self.report(st, 'C07', 'oob-read', 'read of %d bytes at offset %d beyond object of %d bytes' % (size, off, r.size), self.loc(st, ins))
                return ('s', uid())
        if off in r.fields:
            s, v = r.fields[off]
            if s == size or v[0] in ('p', 'f'): return st.res(v)
            if v[0] == 'i' and s > size: 
                m = v[1] & ((1 << (8 * size)) - 1)
                return ('i', m)
            if v == ('z',): return ('i', 0)
        if isinstance(off, int):
            if size == 1:
                c = self.content_at(st, r, off)
                if c is not None: return self.byte0(st, c)
            for o, fv in r.fields.items():
                if isinstance(o, tuple) and o[0] == 'bytes' and r.kind == 'const':
                    b = fv[1]; b0 = o[1]
                    if b0 <= off and off + size <= b0 + len(b):
                        return ('i', int.from_bytes(b[off - b0:off - b0 + size], 'little', signed=size > 1))
            # partial overlap with wider field
            for o, fv in r.fields.items():
                if isinstance(o, int) and o < off < o + fv[0] and fv[1][0] == 'i' and size < fv[0]:
                    return ('i', (fv[1][1] >> (8 * (off - o))) & ((1 << (8 * size)) - 1))
            if r.default == 'zero':
                if r.kind == 'const' and any(isinstance(o, tuple) for o in r.fields): return ('s', uid())
                return ('i', 0)
            if r.default == 'undef':
                return ('u',)
            # opaque memory: memoise
            sid = ('ld', p[1], off, size) if not _has_uid(p[1]) else uid()
            sid = uid()
            v = ('s', sid)
            if ty == 'i8' or size == 1: st.facts[sid] = (0, 255, frozenset())
            st.aux[('ptag', sid)] = ('ld', r.tag, off)
            r2 = self.wr(st, p[1]); r2.fields[off] = (size, v)
            return v
        # symbolic offset
        sid = uid()
        if size == 1: st.facts[sid] = (0, 255, frozenset())
        if r.kind == 'const' and all(v[0] in ('p', 'f', 'i') for v in (fv[1] for o, fv in r.fields.items() if isinstance(o, int))) and r.fields and not any(isinstance(o, tuple) for o in r.fields):
            pass
        st.aux[('symload', sid)] = (p[1], off)
        r2 = self.wr(st, p[1]); r2.fields[off] = (size, ('s', sid))
        return ('s', sid)

    def content_at(self, st, r, off):
        """string content starting at off or None"""
        if off in r.strs: return r.strs[off]
        best = None
        for o, c in r.strs.items():
            if isinstance(o, int) and o < off and (best is None or o > best): best = o
        if best is not None:
            c = r.strs[best]; k = off - best
            if c[0] == 'lit':
                if k <= len(c[1]): return ('lit', c[1][k:])
                mem = self.member_end(r, best)
                if mem is not None and off < mem and r.default == 'zero': return ('lit', b'') if False else None
                return None
            if c[0] == 'c':
                e = self.member_end(r, best)
                if e is not None and off >= e: return None
                return ('sfx', c[1], c[2], k)
            if c[0] == 'unterm':
                if c[1][0] == 'lit' and k < len(c[1][1]): return ('unterm', ('lit', c[1][1][k:]))
                if c[1][0] == 'c': return ('unterm', ('sfx', c[1][1], c[1][2], k))
        for o, fv in r.fields.items():
            if isinstance(o, tuple) and o[0] == 'bytes' and r.kind == 'const':
                b = fv[1]; b0 = o[1]
                if b0 <= off < b0 + len(b): return ('lit', b[off - b0:].split(b'\0')[0])
        if r.default == 'opq' and r.kind in ('opq', 'ext', 'arg') and off not in r.fields and r.strs == {} and off == 0:
            # lazily an unknown string
            c = ('c', uid(), r.tag)
            for rid, rr in st.mem.items():
                if rr is r:
                    r2 = self.wr(st, rid); r2.strs[off] = c
                    break
            return c
        return None

    def byte0(self, st, c):
        if c[0] == 'lit': return ('i', c[1][0] if c[1] else 0)
        if c[0] == 'c': return st.res(('s', ('byte', c[1], 0)))
        if c[0] == 'sfx': return st.res(('s', ('byte', c[1], c[3])))
        if c[0] == 'unterm' and c[1] not in (('lit', b''),): return self.byte0(st, c[1])
        return ('u',)

    def member_end(self, r, off):
        """end offset of the innermost known member that contains off (or region size)"""
        end = r.size if isinstance(r.size, int) and r.size else None
        if r.members and isinstance(off, int):
            best = None
            for mo, nm, ms in r.members:
                if mo <= off < mo + ms and (best is None or ms <= best[2]): best = (mo, nm, ms)
            if best: return best[0] + best[2]
        return end

    def capacity(self, st, p):
        r = st.mem.get(p[1])
        if r is None: return None
        if isinstance(p[2], int):
            if isinstance(r.size, tuple): return ('size', r.size, p[2])
            e = self.member_end(r, p[2])
            return None if e is None else e - p[2]
        return None

    def fits(self, st, p, n):
        """does a write of n bytes (value) at p fit?  True/False"""
        cap = self.capacity(st, p)
        if cap is None:
            r = st.mem.get(p[1])
            return isinstance(p[2], int) and r is not None and r.size is None and r.kind in ('opq', 'ext')
        n = st.res(n)
        if isinstance(cap, tuple):
            sz = st.res(cap[1])
            if sz[0] == 'i':
                u = st.ub(n); return u is not None and u <= sz[1] - cap[2]
            a = (n[1], n[2] if n[0] == 'l' else 0) if n[0] in ('s', 'l') else None
            b = (sz[1], sz[2] if sz[0] == 'l' else 0) if sz[0] in ('s', 'l') else None
            if a and b and a[0] == b[0]: return a[1] <= b[1] - cap[2]
            if n[0] == 'i' and b:
                lo = st.lb(sz); return lo is not None and n[1] <= lo - cap[2]
            return False
        u = st.ub(n)
        return u is not None and u <= cap

    def byte_seen(self, st, r, off):
        """the byte at off belongs to the string stored here and was found not to be its terminator"""
        for o, c in r.strs.items():
            if isinstance(o, int) and o <= off and c[0] == 'c':
                f = st.facts.get(('byte', c[1], off - o))
                if f is not None and ((f[0] or 0) > 0 or 0 in f[2]): return True
        return False

    def store(self, st, p, size, v, ins):
        p = self.ptr(st, p, ins, 'store')
        if p is None: return False
        if p[0] == 'f': return False
        r = st.mem[p[1]]; off = p[2]
        if not isinstance(off, int):
            off = st.res(off); off = off[1] if off[0] == 'i' else off
        if r.kind == 'const':
            self.report(st, 'C07', 'const-write', 'write to constant data', self.loc(st, ins)); return False
        if isinstance(off, int):
            if isinstance(r.size, int) and r.size and (off < 0 or off + size > r.size):
                self.report(st, 'C07', 'oob-write', 'write of %d bytes at offset %d beyond object of %d bytes' % (size, off, r.size), self.loc(st, ins))
                return False
            if isinstance(r.size, tuple) and not self.fits(st, ('p', p[1], off), ('i', size)) and not (size == 1 and self.byte_seen(st, r, off)):
                self.report(st, 'C07', 'oob-write', 'write of %d bytes at offset %d may exceed the allocation' % (size, off), self.loc(st, ins))
            r = self.wr(st, p[1])
            if size == 1 and (off in r.strs or self._in_str(r, off) or (r.members is not None and self._is_chararr(r, off)) or r.kind == 'loc' and (r.size or 0) > 1 and (r.default == 'undef' and not r.fields or r.strs)):
                self._store_byte(st, r, off, v)
                return True
            for o in [o for o in r.fields if isinstance(o, int) and o < off + size and off < o + r.fields[o][0] and o != off]:
                del r.fields[o]
            for o in [o for o in r.strs if isinstance(o, int) and off <= o < off + size]: del r.strs[o]
            for o in [o for o in r.fields if not isinstance(o, int) and o[0] in ('s', 'l')]: del r.fields[o]
            r.fields[off] = (size, v)
            return True
        # symbolic offset: must be proven in bounds
        ok = False
        o = off
        lo = st.lb(o); u = st.ub(o)
        end = None      # end of the member array the write starts in
        if r.members and lo is not None and lo >= 0 and self._is_chararr(r, lo): end = self.member_end(r, lo)
        elif isinstance(r.size, int) and r.size: end = r.size
        if u is not None and end is not None and u + size <= end and (lo or 0) >= 0: ok = True
        nonnul = False
        if off in r.fields and size == 1:
            b = st.res(r.fields[off][1])
            if b[0] == 'i' and b[1] != 0 or b[0] == 's' and ((st.rng(b[1])[0] or 0) > 0 or 0 in st.rng(b[1])[2]): ok = nonnul = True   # overwrites a byte just read as non-NUL
        if not ok:
            self.report(st, 'C07', 'unbounded-write', 'write at an offset that is not bounded by the object size', self.loc(st, ins))
        r = self.wr(st, p[1])
        # only the array the write stays in is affected
        hi = end if ok and end is not None and r.members and lo is not None else None
        start = max(mo for mo, nm, ms in r.members if mo <= lo < mo + ms) if hi is not None else None
        v = st.res(v)
        def hit(k): return hi is None or not isinstance(k, int) or start <= k < hi
        r.fields = {o: fv for o, fv in r.fields.items() if isinstance(o, tuple) and o[0] == 'bytes' or not hit(o)}
        nul = v == ('i', 0)
        nz = v[0] == 'i' and v[1] != 0 or v[0] == 's' and ((st.rng(v[1])[0] or 0) > 0 or 0 in st.rng(v[1])[2])
        for o2, c in list(r.strs.items()):
            if not hit(o2): continue
            inner = c[1] if c[0] == 'unterm' else c
            if nul and inner[0] == 'c' and isinstance(o2, int) and off == (('l', ('len', inner[1]), o2) if o2 else ('s', ('len', inner[1]))):
                r.strs[o2] = inner; continue        # the terminator of this very string
            n = st.fresh_content(_modof(inner))
            e = st.emptiness(inner)
            if e == 'N' and not nul or e == 'E' and nul: st.set_empt(n, e)
            elif e == 'N' and nul and isinstance(o2, int) and lo is not None and lo > o2: st.set_empt(n, 'N')
            if nul: r.strs[o2] = n
            else: r.strs[o2] = ('unterm', n) if c[0] == 'unterm' and not nonnul else n
        r.fields[off] = (size, v)
        return True

    def _in_str(self, r, off):
        for o, c in r.strs.items():
            if isinstance(o, int) and o <= off:
                e = self.member_end(r, o)
                if e is not None and off < e: return True
        return False

    def _is_chararr(self, r, off):
        for mo, nm, ms in r.members:
            if mo <= off < mo + ms and ms > 8 and not any(m2 != mo and mo <= m2 < mo + ms for m2, _, _ in r.members): return True
        return False

    def _store_byte(self, st, r, off, v):
        v = st.res(v)
        base = None
        for o in r.strs:
            if isinstance(o, int) and o <= off and self.member_end(r, o) == self.member_end(r, off) and (base is None or o > base): base = o
        r.fields.pop(off, None)
        if base is None or base == off:
            if v == ('i', 0): r.strs[off] = ('lit', b'')
            else:
                old = r.strs.get(off)
                tag = ('bytes',)
                nz = v[0] == 'i' or (v[0] == 's' and ((st.rng(v[1])[0] or 0) > 0 or 0 in st.rng(v[1])[2]))
                if old is not None and st.emptiness(old) == 'N' and old[0] != 'unterm' and nz:
                    r.strs[off] = st.fresh_content(_modof(old), 'N')
                else:
                    c = st.fresh_content(tag, 'N' if nz else None)
                    r.strs[off] = ('unterm', c)
        else:
            c = r.strs[base]; k = off - base
            if v == ('i', 0):
                inner = c[1] if c[0] == 'unterm' else c
                if inner[0] == 'lit':
                    if k < len(inner[1]): r.strs[base] = ('lit', inner[1][:k])
                    else: r.strs[base] = inner
                else:
                    h = st.rng(('len', inner[1]))[1] if inner[0] == 'c' else None
                    if c[0] != 'unterm' and h is not None and h <= k: pass
                    elif inner[0] == 'c' and h == k == st.rng(('len', inner[1]))[0]: r.strs[base] = inner
                    else:
                        n = ('c', uid(), ('trunc', _tagof(inner)))
                        st.setrng(('len', n[1]), 0, k)
                        e = st.emptiness(inner)
                        if e == 'N' and k >= 1: st.set_empt(n, 'N')
                        if e == 'E': st.set_empt(n, 'E')
                        r.strs[base] = n
            else:
                inner = c[1] if c[0] == 'unterm' else c
                n = st.fresh_content(_modof(inner), st.emptiness(inner))
                past = inner[0] == 'lit' and k >= len(inner[1])
                r.strs[base] = ('unterm', n) if (c[0] == 'unterm' or past) else n

    def content(self, st, p, ins, why='string read'):
        """content of the string p points to (p any pointer value); reports on null/unterminated; None = path dies"""
        p = self.ptr(st, p, ins, why)
        if p is None: return None
        if p[0] == 'f': return ('c', uid(), ('fn',))
        r = st.mem[p[1]]
        off = p[2]
        if not isinstance(off, int):
            off = st.res(off); off = off[1] if off[0] == 'i' else off
        if not isinstance(off, int):
            return ('c', uid(), ('suffix', r.tag))
        c = self.content_at(st, r, off)
        if c is None:
            if off in r.fields and r.fields[off][0] == 1:
                v = st.res(r.fields[off][1])
                if v == ('i', 0): return ('lit', b'')
                c = st.fresh_content(('bytes', r.tag))
                return c
            if r.default == 'zero': return ('lit', b'')
            if r.default == 'undef' and not r.strs:
                self.report(st, 'C07', 'uninit-string', 'buffer is read as a string before anything was written to it (%s)' % why, self.loc(st, ins))
                return ('c', uid(), ('undef',))
            return ('c', uid(), ('in', r.tag, off))
        if c[0] == 'unterm':
            self.report(st, 'C07', 'unterminated', 'buffer is read as a string but may lack its NUL terminator (%s)' % why, self.loc(st, ins))
            return c[1]
        return c

    def set_string(self, st, p, c):
        """write string content (already bounds checked) at pointer p"""
        r = self.wr(st, p[1]); off = p[2]
        if not isinstance(off, int):
            r.strs = {}; return
        end = self.member_end(r, off)
        for o in [o for o in r.strs if isinstance(o, int) and o > off and (end is None or o < end)]: del r.strs[o]
        for o in [o for o in r.fields if isinstance(o, int) and off <= o and (end is None or o < end) and (r.members is not None or r.kind in ('loc', 'heap', 'opq', 'arg'))]:
            del r.fields[o]
        base = None
        for o in r.strs:
            if isinstance(o, int) and o < off and self.member_end(r, o) == end and (base is None or o > base): base = o
        if base is not None:
            b = r.strs[base]
            bi = b[1] if b[0] == 'unterm' else b
            n = st.fresh_content(('cat', _tagof(bi), _tagof(c)))
            if st.emptiness(bi) == 'N' or (off == base and st.emptiness(c) == 'N'): st.set_empt(n, 'N')
            r.strs[base] = n
            return
        r.strs[off] = c

    # ------------------------------------------------------------------ comparisons
    def lin(self, v):
        if v[0] == 'i': return (None, v[1])
        if v[0] == 's': return (v[1], 0)
        if v[0] == 'l': return (v[1], v[2])
        return None

    def compare(self, st, pred, a, b, bits, ins):
        """-> list of (state, bool)"""
        a = st.res(a); b = st.res(b)
        if a[0] == 'z': a = ('i', 0)
        if b[0] == 'z': b = ('i', 0)
        if a[0] == 'u' or b[0] == 'u':
            self.report(st, 'C08', 'uninit', 'decision depends on an uninitialised value', self.loc(st, ins))
            s2 = st.copy(); s2.nforks += 1; st.nforks += 1
            return [(st, True), (s2, False)]
        # pointers
        for x, y in ((a, b), (b, a)):
            if x[0] in ('p', 'f') and y[0] == 'i':
                if pred == 'eq': return [(st, False)]
                if pred == 'ne': return [(st, True)]
                return [(st, (pred in ('ugt', 'uge')) == (x is a))]
        if a[0] in ('p', 'f') and b[0] in ('p', 'f'):
            if a == b: return [(st, pred in ('eq', 'uge', 'ule', 'sge', 'sle'))]
            if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
                oa = a[2] if not isinstance(a[2], int) else ('i', a[2]); ob = b[2] if not isinstance(b[2], int) else ('i', b[2])
                return self.compare(st, pred, oa, ob, 64, ins)
            if pred in ('eq', 'ne'): return [(st, pred == 'ne')]
            return self.unknown(st, pred, a, b)
        la, lb = self.lin(a), self.lin(b)
        if la is None or lb is None: return self.unknown(st, pred, a, b)
        if la[0] == lb[0]:
            x, y = la[1], lb[1]
            if la[0] is None and pred[0] == 'u':
                m = (1 << bits) - 1
                x &= m; y &= m
            return [(st, _c(pred, x, y))]
        if la[0] is not None and lb[0] is not None:
            # interval decision
            la_, ua = st.lb(a), st.ub(a); lb_, ub = st.lb(b), st.ub(b)
            if None not in (la_, ub) and la_ > ub and la_ >= 0: return [(st, _c(pred, 1, 0))]
            if None not in (ua, lb_) and ua < lb_ and (la_ or 0) >= 0 and (lb_) >= 0: return [(st, _c(pred, 0, 1))]
            if pred == 'eq' or pred == 'ne':
                pass
            return self.unknown(st, pred, a, b)
        if la[0] is None:
            a, b, la, lb = b, a, lb, la
            pred = _swap(pred)
        sid, k = la; c = lb[1]
        lo, hi, ne = st.rng(sid)
        if pred[0] == 'u' and c < 0:
            c = c & ((1 << bits) - 1)
        t = c - k   # compare sid with t
        p = pred
        if p[0] in 'us' and len(p) == 3:
            if p[0] == 'u' and (lo is None or lo < 0):
                # unsigned view of possibly negative/unknown value
                if lo is None and hi is None:
                    lo_, hi_ = 0, (1 << 64) - 1
                    lo, hi = lo_, hi_
                else:
                    return self.unknown(st, pred, a, b)
            p = p[1:]
        if p in ('eq', 'ne'):
            if (lo is not None and t < lo) or (hi is not None and t > hi) or t in ne:
                return [(st, p == 'ne')]
            if lo is not None and lo == hi == t: return [(st, p == 'eq')]
            s2 = st.copy(); out = []
            st.nforks += 1; s2.nforks += 1
            if st.setrng(sid, t, t): out.append((st, p == 'eq'))
            nlo, nhi = lo, hi
            if s2.setrng(sid, nlo, nhi, ne | {t}): out.append((s2, p == 'ne'))
            return out
        # orderings sid p t
        def split(lt_hi, ge_lo, res_lt):
            # sid <= lt_hi -> res_lt ; sid >= ge_lo -> not res_lt
            if hi is not None and hi <= lt_hi: return [(st, res_lt)]
            if lo is not None and lo >= ge_lo: return [(st, not res_lt)]
            s2 = st.copy(); out = []
            st.nforks += 1; s2.nforks += 1
            if st.setrng(sid, lo, lt_hi, ne): out.append((st, res_lt))
            if s2.setrng(sid, ge_lo, hi, ne): out.append((s2, not res_lt))
            return out
        if p == 'lt': return split(t - 1, t, True)
        if p == 'le': return split(t, t + 1, True)
        if p == 'gt': return split(t, t + 1, False)
        if p == 'ge': return split(t - 1, t, False)
        return self.unknown(st, pred, a, b)

    def unknown(self, st, pred, a, b):
        k = (pred, a, b)
        n = _norm(k)
        if n[0] in st.rel: return [(st, st.rel[n[0]] ^ n[1])]
        s2 = st.copy()
        st.nforks += 1; s2.nforks += 1
        st.rel[n[0]] = True ^ n[1]; s2.rel[n[0]] = False ^ n[1]
        ta, tb = (st.aux.get(('ptag', x[1])) if x[0] == 's' else None for x in n[0][1:])
        if ta is not None and tb is not None:
            # decisions about values of known origin stay observable
            for s, v in ((st, True ^ n[1]), (s2, False ^ n[1])):
                s.misc['cmp'] = s.misc.get('cmp', frozenset()) | {(n[0][0], ta, tb, v)}
        return [(st, True), (s2, False)]

    # ------------------------------------------------------------------ execution
    def push(self, st, fn, args, call):
        fn.prep()
        f = Frame(); f.fn = fn; f.blk = 0; f.prev = -1; f.idx = 0; f.call = call; f.visits = {}
        f.env = {}
        for n, a in enumerate(fn.args):
            f.env[n] = args[n] if n < len(args) else ('u',)
        f.env['va'] = tuple(args[len(fn.args):])
        f.seq = len(st.frames)
        if len(st.frames) > 60: raise Budget('call depth')
        st.frames.append(f)
        self.funcs_seen.add(fn.name)

    def run(self, fn, args, st):
        if isinstance(fn, str): fn = self.mod.funcs[fn]
        st.frames = []
        self.push(st, fn, args, None)
        outs = []
        self.loop([st], outs)
        return outs

    def loop(self, work, outs):
        seen = set(); n = 0
        saved = self._work
        try:
            while work:
                st = work.pop()
                n += 1
                if n > self.max_states: raise Budget('too many abstract states')
                self._work = (work, n)
                self.step(st, work, outs, seen)
        finally: self._work = saved

    def live(self, f, top):
        fn = f.fn
        k = (fn.name, f.blk, f.idx if not top else -1)
        r = self._live.get(k)
        if r is None:
            s = set(fn.live_in[f.blk]) if top else set(fn.live_in[f.blk]) | self._defs(fn, f.blk, f.idx)
            if top:
                for i in fn.blocks[f.blk]['i']:
                    if i['op'] == 'phi': s.add(i['id'])
                    else: break
            else:
                # values live at the call: live-out of the rest of the block
                s = self._live_at(fn, f.blk, f.idx)
            r = self._live[k] = sorted(s)
        return r

    def _defs(self, fn, b, idx): return {i['id'] for i in fn.blocks[b]['i'][:idx]}

    def _live_at(self, fn, b, idx):
        ins = fn.blocks[b]['i']
        live = set()
        for s in fn.succ[b]:
            live |= fn.live_in[s]
            for i in fn.blocks[s]['i']:
                if i['op'] != 'phi': break
                for pb, o in i['inc']:
                    if pb == b and o[0] == 'v': live.add(o[1])
        for i in reversed(ins[idx + 1:]):
            live.discard(i['id'])
            if i['op'] != 'phi':
                for o in operands(i):
                    if o[0] == 'v': live.add(o[1])
        return live

    def goto(self, st, target, seen):
        """transfer to block; evaluates phis; returns False if state subsumed"""
        f = st.frames[-1]; fn = f.fn; src = f.blk
        B = fn.blocks[target]
        newv = {}
        for ins in B['i']:
            if ins['op'] != 'phi': break
            for pb, o in ins['inc']:
                if pb == src:
                    newv[ins['id']] = self.val(st, o); break
        if B.get('hdr'):
            in_loop = target in (fn.blocks[src].get('loops') or ())
            if not in_loop:
                f.visits[target] = (0, st.nforks, None)
            else:
                cnt, nf, snap = f.visits.get(target, (0, st.nforks, None))
                if st.nforks > nf: cnt += 1
                if cnt >= 3:
                    for i in newv:
                        old = f.env.get(i); nv = newv[i]
                        if old is not None and st.res(old) != nv:
                            newv[i] = self.widen(st, st.res(old), nv)
                    if snap is not None: self.widen_mem(st, snap)
                tot = f.visits.get(('t', target), 0) + 1
                f.visits[('t', target)] = tot
                if tot > 3000: raise Budget('loop in %s' % fn.name)
                f.visits[target] = (cnt, st.nforks, st.mem if cnt >= 2 else None)
        for i, v in newv.items(): f.env[i] = v
        f.prev = src; f.blk = target; f.idx = 0
        for ins in B['i']:
            if ins['op'] != 'phi': break
            f.idx += 1
        if B.get('hdr') or len(fn.pred[target]) > 1 and (self._work[0] or self._work[1] > 1):
            st2mem = st.mem
            k = hash(st.key(self.live))
            if k in seen: return False
            seen.add(k)
        return True

    def widen(self, st, old, new):
        if old[0] == 'p' and new[0] == 'p' and old[1] == new[1]:
            return ('p', old[1], ('s', uid()))
        if old[0] in ('i', 'l', 's') and new[0] in ('i', 'l', 's'):
            s = uid()
            lo = st.lb(old); ln = st.lb(new)
            hi = st.ub(old); hn = st.ub(new)
            # the next constant the function compares with that is not yet exceeded, then no bound
            if hi is not None and hn is not None: hi = min((t for t in self.thresholds(st.frames[-1].fn) if t >= max(hi, hn)), default=None)
            else: hi = None
            if lo is not None and ln is not None and lo >= 0 and ln >= 0: st.facts[s] = (0, hi, frozenset())
            elif hi is not None: st.facts[s] = (None, hi, frozenset())
            return ('s', s)
        return new

    def thresholds(self, fn):
        t = self._thr.get(fn.name)
        if t is None:
            t = set()
            for b in fn.blocks:
                for i in b['i']:
                    if i['op'] == 'icmp':
                        for o in i['ops']:
                            if o[0] == 'i' and 0 <= o[1] < 1 << 31: t.update((o[1], o[1] + 1))
            t = self._thr[fn.name] = sorted(t)
        return t

    def widen_mem(self, st, snap):
        for rid in list(st.mem):
            a = snap.get(rid); b = st.mem[rid]
            if a is None or a is b: continue
            ch = None
            for o, fv in b.fields.items():
                av = a.fields.get(o)
                if av is not None and av != fv and isinstance(o, int) and fv[1][0] in ('i', 'l', 's', 'p') and av[1][0] in ('i', 'l', 's', 'p'):
                    w = self.widen(st, st.res(av[1]), st.res(fv[1]))
                    if w != fv[1]:
                        ch = ch or b.copy(); ch.fields[o] = (fv[0], w)
                elif av is not None and fv[1][0] == 'str' and av != fv:
                    ch = ch or b.copy()
                    c = st.fresh_content(('loop',))
                    if st.emptiness(fv[1][1]) == 'N' and st.emptiness(av[1][1]) == 'N': st.set_empt(c, 'N')
                    ch.fields[o] = (fv[0], ('str', c))
            if len(b.fields) > 64 + len(a.fields):
                ch = ch or b.copy()
            if ch is not None: st.mem[rid] = ch

    def step(self, st, work, outs, seen):
        while True:
            f = st.frames[-1]
            ins = f.fn.blocks[f.blk]['i'][f.idx]
            self.nsteps += 1
            op = ins['op']
            h = getattr(self, 'op_' + op, None)
            if h is None:
                r = self.op_generic(st, ins)
            else:
                r = h(st, ins, work, outs, seen)
            if r == 'next':
                st.frames[-1].idx += 1
                continue
            if r == 'jumped':
                continue
            return  # state consumed

    # each op returns 'next', 'jumped' or None(consumed)
    def setv(self, st, ins, v):
        st.frames[-1].env[ins['id']] = v

    def op_generic(self, st, ins):
        op = ins['op']
        if op in ('fence',): return 'next'
        self.setv(st, ins, ('s', uid()))
        return 'next'

    def op_alloca(self, st, ins, *_):
        f = st.frames[-1]
        rid = ('loc', f.seq, f.fn.name, ins['id'])
        sz = ins['asz']
        if ins['ops'] and ins['ops'][0][0] != 'i' or (ins['ops'] and ins['ops'][0][1] != 1):
            n = self.val(st, ins['ops'][0])
            sz = sz * n[1] if n[0] == 'i' else None
        st.mem[rid] = Region(sz, 'undef', 'loc', name=ins.get('n', ''))
        self.setv(st, ins, ('p', rid, 0))
        return 'next'

    def op_load(self, st, ins, *_):
        v = self.load(st, self.val(st, ins['ops'][0]), ins['sz'], ins, ins['ty'])
        if v is None: return None
        self.setv(st, ins, v)
        return 'next'

    def op_store(self, st, ins, *_):
        v = self.val(st, ins['ops'][0]); p = self.val(st, ins['ops'][1])
        if not self.store(st, p, ins['sz'], v, ins): return None
        return 'next'

    def op_getelementptr(self, st, ins, *_):
        b = self.val(st, ins['base'])
        off = ('i', ins['off'])
        for scale, o in ins['var']:
            v = self.val(st, o)
            off = self.add(st, off, self.mul(st, v, scale))
        self.setv(st, ins, self.padd(st, b, off))
        return 'next'

    def padd(self, st, b, off):
        off = st.res(off)
        if b[0] == 'p':
            o = b[2] if not isinstance(b[2], int) else ('i', b[2])
            r = self.add(st, o, off)
            r = st.res(r)
            return ('p', b[1], r[1] if r[0] == 'i' else r)
        if b[0] in ('s', 'l', 'i') and off[0] in ('i',):
            if b[0] == 'i' and b[1] == 0: return ('i', off[1])
            return self.add(st, b, off)
        if b[0] == 's' and off[0] in ('s', 'l'):
            m = self.materialise(st, b)
            if m: return self.padd(st, m, off)
        return ('s', uid())

    def add(self, st, a, b):
        a = st.res(a); b = st.res(b)
        if a[0] == 'i' and b[0] == 'i': return ('i', a[1] + b[1])
        if a[0] == 'i': a, b = b, a
        if b[0] == 'i':
            if b[1] == 0: return a
            if a[0] == 's': return ('l', a[1], b[1])
            if a[0] == 'l': return ('s', a[1]) if a[2] + b[1] == 0 else ('l', a[1], a[2] + b[1])
            if a[0] == 'p': return self.padd(st, a, b)
        if a[0] == 'p' and b[0] in ('s', 'l'): return self.padd(st, a, b)
        if b[0] == 'p' and a[0] in ('s', 'l'): return self.padd(st, b, a)
        if a[0] == 'u' or b[0] == 'u': return ('u',)
        s = uid()
        la, lb2 = st.lb(a), st.lb(b); ua, ub2 = st.ub(a), st.ub(b)
        lo = la + lb2 if None not in (la, lb2) else None
        hi = ua + ub2 if None not in (ua, ub2) else None
        if lo is not None or hi is not None: st.facts[s] = (lo, hi, frozenset())
        return ('s', s)

    def mul(self, st, a, k):
        if k == 1: return a
        if a[0] == 'i': return ('i', a[1] * k)
        if a[0] == 'u': return a
        key = ('mul', a, k)
        v = st.aux.get(key)
        if v is None:
            s = uid(); v = ('s', s)
            lo, hi = st.lb(a), st.ub(a)
            st.facts[s] = (lo * k if lo is not None else None, hi * k if hi is not None else None, frozenset())
            st.aux[key] = v
        return v

    def _bin(self, st, ins, fn):
        a = self.val(st, ins['ops'][0]); b = self.val(st, ins['ops'][1])
        if a[0] == 'z': a = ('i', 0)
        if b[0] == 'z': b = ('i', 0)
        v = fn(a, b)
        if v[0] == 'i':
            bits = ins.get('bits', 64)
            n = v[1] & ((1 << bits) - 1)
            if bits > 1 and n >> (bits - 1): n -= 1 << bits
            v = ('i', n)
        self.setv(st, ins, v)
        return 'next'

    def op_add(self, st, ins, *_):
        return self._bin(st, ins, lambda a, b: self.add(st, a, b))
    def op_sub(self, st, ins, *_):
        def g(a, b):
            if b[0] == 'i': return self.add(st, a, ('i', -b[1]))
            if a == b and a[0] != 'u': return ('i', 0)
            la, lb2 = self.lin(a), self.lin(b)
            if la and lb2 and la[0] == lb2[0]: return ('i', la[1] - lb2[1])
            if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
                oa = ('i', a[2]) if isinstance(a[2], int) else a[2]; ob = ('i', b[2]) if isinstance(b[2], int) else b[2]
                if ob[0] == 'i': return self.add(st, oa, ('i', -ob[1]))
            if a[0] == 'u' or b[0] == 'u': return ('u',)
            return ('s', uid())
        return self._bin(st, ins, g)
    def op_mul(self, st, ins, *_):
        def g(a, b):
            if a[0] == 'i' and b[0] == 'i': return ('i', a[1] * b[1])
            if b[0] == 'i': return self.mul(st, a, b[1])
            if a[0] == 'i': return self.mul(st, b, a[1])
            return ('s', uid())
        return self._bin(st, ins, g)
    def _arith(self, f):
        def g(a, b):
            if a[0] == 'i' and b[0] == 'i':
                try: return ('i', f(a[1], b[1]))
                except Exception: return ('s', uid())
            if a[0] == 'u' or b[0] == 'u': return ('u',)
            return ('s', uid())
        return g
    def op_and(self, st, ins, *_):
        def g(a, b):
            if a == ('i', 0) or b == ('i', 0): return ('i', 0)
            if a[0] == 'i' and b[0] == 'i': return ('i', a[1] & b[1])
            for x, y in ((a, b), (b, a)):
                if y[0] == 'i' and y[1] == -1: return x
                if y == ('i', 1) and x[0] == 's' and st.ub(x) == 1 and st.lb(x) == 0: return x
            if a == b: return a
            s = uid()
            for x, y in ((a, b), (b, a)):
                if y[0] == 'i' and y[1] >= 0: st.facts[s] = (0, y[1], frozenset())
            return ('s', s)
        return self._bin(st, ins, g)
    def op_or(self, st, ins, *_):
        def g(a, b):
            if a[0] == 'i' and b[0] == 'i': return ('i', a[1] | b[1])
            if a == ('i', 0): return b
            if b == ('i', 0): return a
            if a == b: return a
            return ('s', uid())
        return self._bin(st, ins, g)
    def op_xor(self, st, ins, *_):
        def g(a, b):
            if a[0] == 'i' and b[0] == 'i': return ('i', a[1] ^ b[1])
            if b == ('i', 0): return a
            if a == b: return ('i', 0)
            return ('s', uid())
        return self._bin(st, ins, g)
    def op_shl(self, st, ins, *_): return self._bin(st, ins, self._arith(lambda a, b: a << b))
    def op_lshr(self, st, ins, *_): return self._bin(st, ins, self._arith(lambda a, b: (a & (2**ins.get('bits', 64) - 1)) >> b))
    def op_ashr(self, st, ins, *_): return self._bin(st, ins, self._arith(lambda a, b: a >> b))
    def op_udiv(self, st, ins, *_):
        def g(a, b):
            if a[0] == 'i' and b[0] == 'i' and b[1]: return ('i', a[1] // b[1])
            s = uid()
            u = st.ub(a)
            if b[0] == 'i' and b[1] > 0 and u is not None: st.facts[s] = (0, u // b[1], frozenset())
            return ('s', s)
        return self._bin(st, ins, g)
    op_sdiv = op_udiv
    def op_urem(self, st, ins, *_):
        return self._bin(st, ins, self._arith(lambda a, b: a % b))
    op_srem = op_urem

    def op_zext(self, st, ins, *_):
        v = self.val(st, ins['ops'][0])
        if v[0] == 'i' and v[1] < 0:
            v = ('i', v[1] & ((1 << ins['sbits']) - 1))
        if v[0] == 's' and st.rng(v[1])[0] is None:
            st.setrng(v[1], 0, min((1 << ins['sbits']) - 1, st.rng(v[1])[1] if st.rng(v[1])[1] is not None else (1 << 64)), st.rng(v[1])[2])
        self.setv(st, ins, v); return 'next'
    def op_sext(self, st, ins, *_):
        v = self.val(st, ins['ops'][0])
        if v[0] == 'i' and ins['sbits'] == 1 and v[1] == 1: v = ('i', -1)
        elif v[0] == 'i' and ins['sbits'] == 8 and v[1] > 127: v = ('i', v[1] - 256)
        elif v[0] == 's' and isinstance(v[1], tuple) and v[1][0] != 'byte' and st.rng(v[1])[0] is None:
            st.setrng(v[1], -(1 << (ins['sbits'] - 1)), (1 << (ins['sbits'] - 1)) - 1, st.rng(v[1])[2])
        self.setv(st, ins, v); return 'next'
    def op_trunc(self, st, ins, *_):
        v = self.val(st, ins['ops'][0]); bits = ins['bits']
        if v[0] == 'i':
            n = v[1] & ((1 << bits) - 1)
            if bits > 1 and n >> (bits - 1): n -= 1 << bits
            v = ('i', n)
        elif v[0] in ('s', 'l'):
            u, l = st.ub(v), st.lb(v)
            if bits == 1 and u is not None and u <= 1 and (l or 0) >= 0: pass
            elif u is not None and u < (1 << bits) and l is not None and l >= -(1 << (bits - 1)): pass
            else:
                key = ('trunc', v, bits)
                if key in st.aux: v = st.aux[key]
                else:
                    n = ('s', uid())
                    if bits == 1: st.facts[n[1]] = (0, 1, frozenset())
                    st.aux[key] = n; v = n
        self.setv(st, ins, v); return 'next'
    def _id(self, st, ins, *_):
        self.setv(st, ins, self.val(st, ins['ops'][0])); return 'next'
    op_bitcast = op_ptrtoint = op_inttoptr = op_freeze = op_addrspacecast = _id

    def op_icmp(self, st, ins, work, outs, seen):
        a = self.val(st, ins['ops'][0]); b = self.val(st, ins['ops'][1])
        bits = 64
        for o in ins['ops']:
            if o[0] == 'i': bits = o[2]
        rs = self.compare(st, ins['pred'], a, b, bits, ins)
        for s, r in rs:
            self.setv(s, ins, ('i', 1 if r else 0))
            if s is not st:
                s.frames[-1].idx += 1; work.append(s)
        if rs and rs[0][0] is st: return 'next'
        if any(s is st for s, _ in rs): return 'next'
        return None

    def op_fcmp(self, st, ins, *_):
        s = uid(); st.facts[s] = (0, 1, frozenset())
        self.setv(st, ins, ('s', s)); return 'next'

    def fork_bool(self, st, v, ins):
        """-> list of (state,bool)"""
        v = st.res(v)
        if v[0] == 'i': return [(st, bool(v[1] & 1))]
        if v[0] == 'u':
            self.report(st, 'C08', 'uninit', 'branch depends on an uninitialised value', self.loc(st, ins))
            s2 = st.copy(); return [(st, True), (s2, False)]
        return [(s, r) for s, r in self.compare(st, 'ne', v, ('i', 0), 1, ins)]

    def op_select(self, st, ins, work, *_):
        c = self.val(st, ins['ops'][0])
        rs = self.fork_bool(st, c, ins)
        keep = False
        for s, r in rs:
            self.setv(s, ins, self.val(s, ins['ops'][1 if r else 2]))
            if s is not st: s.frames[-1].idx += 1; work.append(s)
            else: keep = True
        return 'next' if keep else None

    def op_br(self, st, ins, work, outs, seen):
        ops = ins['ops']
        if len(ops) == 1:
            return 'jumped' if self.goto(st, ops[0][1], seen) else None
        c = self.val(st, ops[0])
        # operand order in LLVM: cond, false, true
        rs = self.fork_bool(st, c, ins)
        keep = False
        for s, r in rs:
            w = s.frames[-1].fn.where(ins)
            s.note('%s:%s %s' % (w[0].rsplit('/', 1)[-1], w[1], 'T' if r else 'F'))
            ok = self.goto(s, ops[2][1] if r else ops[1][1], seen)
            if not ok: continue
            if s is st: keep = True
            else: work.append(s)
        return 'jumped' if keep else None

    def op_switch(self, st, ins, work, outs, seen):
        v = st.res(self.val(st, ins['cond']))
        if v[0] == 'i':
            t = ins['default']
            for c, b in ins['cases']:
                if c == v[1]: t = b
            return 'jumped' if self.goto(st, t, seen) else None
        rest = st
        for c, b in ins['cases']:
            rs = self.compare(rest, 'eq', v, ('i', c), 32, ins)
            nxt = None
            for s, r in rs:
                if r:
                    s2 = s
                    s2.note('switch case %d' % c)
                    if self.goto(s2, b, seen): work.append(s2)
                else: nxt = s
            if nxt is None: return None
            rest = nxt
        rest.note('switch default')
        if self.goto(rest, ins['default'], seen): work.append(rest)
        return None

    def op_unreachable(self, st, ins, work, outs, seen):
        return None

    def op_ret(self, st, ins, work, outs, seen):
        v = self.val(st, ins['ops'][0]) if ins.get('ops') else None
        self.pop(st)
        if not st.frames:
            self.npaths += 1
            outs.append(Outcome('ret', v, st)); return None
        return self.finish_call(st, v, seen)

    def pop(self, st):
        f = st.frames.pop()
        for rid in [r for r in st.mem if r[0] == 'loc' and r[1] == f.seq]:
            del st.mem[rid]
        if st.frames: st.frames[-1] = st.frames[-1].copy()
        return f

    def finish_call(self, st, v, seen):
        f = st.frames[-1]
        call = f.fn.blocks[f.blk]['i'][f.idx]
        if 'ty' in call: f.env[call['id']] = v if v is not None else ('s', uid())
        if call['op'] == 'invoke':
            return 'jumped' if self.goto(st, call['normal'], seen) else None
        f.idx += 1
        return 'jumped'

    # ---- exceptions
    def throw(self, st, ty, work, outs, seen, val=None):
        st.exc = (ty, val)
        return self.unwind(st, work, outs, seen)

    def unwind(self, st, work, outs, seen):
        first = True
        while st.frames:
            f = st.frames[-1]
            ins = f.fn.blocks[f.blk]['i'][f.idx]
            if ins['op'] == 'invoke':
                return 'jumped' if self.goto(st, ins['unwind'], seen) else None
            self.pop(st)
        self.npaths += 1
        outs.append(Outcome('throw', st.exc, st))
        return None

    def op_landingpad(self, st, ins, work, outs, seen):
        sel = 0
        ty = st.exc[0] if st.exc else None
        for n, (k, o) in enumerate(ins['clauses']):
            if k == 'catch':
                if o[0] == 'n' or (o[0] == 'g' and (o[1] == ty or self.hooks.get('isa', lambda a, b: False)(ty, o[1]))):
                    sel = ('tid', o[1] if o[0] == 'g' else None); break
        if sel == 0 and not ins['cleanup'] and ins['clauses']:
            # not caught here
            self.pop(st) if False else None
        self.setv(st, ins, ('a', (('exc',), sel if sel else ('i', 0))))
        return 'next'

    def op_resume(self, st, ins, work, outs, seen):
        self.pop(st)
        return self.unwind(st, work, outs, seen)

    def op_extractvalue(self, st, ins, *_):
        v = self.val(st, ins['ops'][0])
        for k in ins['idx']:
            if v[0] == 'a' and k < len(v[1]): v = v[1][k]
            else: v = ('s', uid()); break
        if v == ('exc',): v = ('p', ('excobj',), 0)
        self.setv(st, ins, v); return 'next'

    def op_insertvalue(self, st, ins, *_):
        a = self.val(st, ins['ops'][0]); b = self.val(st, ins['ops'][1])
        k = ins['idx'][0]
        l = list(a[1]) if a[0] == 'a' else []
        while len(l) <= k: l.append(('u',))
        l[k] = b
        self.setv(st, ins, ('a', tuple(l))); return 'next'

    # ---- calls
    def op_call(self, st, ins, work, outs, seen):
        callee = self.val(st, ins['callee'])
        callee = st.res(callee)
        args = [self.val(st, o) for o in ins['ops']]
        name = callee[1] if callee[0] == 'f' else None
        self.sites.add((st.frames[-1].fn.name, ins['id']))
        if callee[0] == 'i' or callee[0] == 'u' or callee[0] == 's':
            if not (callee[0] == 's' and ((st.rng(callee[1])[0] or 0) > 0 or 0 in st.rng(callee[1])[2])):
                self.report(st, self.hooks.get('nullcall', 'C05'), 'null-call', 'call through a function pointer that may be null', self.loc(st, ins))
                if callee[0] != 's': return None
        if callee[0] == 'p' or callee[0] == 's':
            h = self.hooks.get('icall')
            rs = h(self, st, ins, callee, args) if h else None
            if rs is None: rs = [(st, ('s', uid()) if 'ty' in ins else None)]
            return self.results(st, rs, ins, work, outs, seen)
        if name is None: raise Abort('callee')
        fn = self.mod.funcs.get(name)
        m = self.find_model(name, fn)
        if m is not None:
            rs = m(self, st, ins, args)
            if rs == 'inline': m = None
            else: return self.results(st, rs, ins, work, outs, seen)
        if fn is not None and not fn.decl and self.should_inline(fn):
            for f in st.frames[:-1]:
                pass
            self.push(st, fn, args, ins)
            return 'jumped'
        self.unmodelled[fn.dem if fn else name] = self.unmodelled.get(fn.dem if fn else name, 0) + 1
        rs = self.havoc(st, ins, args)
        return self.results(st, rs, ins, work, outs, seen)
    op_invoke = op_call

    def havoc(self, st, ins, args):
        for a in args:
            a = st.res(a)
            if a[0] == 'p' and a[1] in st.mem and st.mem[a[1]].kind in ('loc', 'heap', 'opq'):
                r = self.wr(st, a[1])
                r.fields = {}; r.strs = {}; r.default = 'opq'; r.tag = ('havoc',)
        return [(st, ('s', uid()) if 'ty' in ins else None)]

    def should_inline(self, fn):
        if self.inline_pred is None: return True
        r = self._inl.get(fn.name)
        if r is None: r = self._inl[fn.name] = self.inline_pred(fn)
        return r

    def find_model(self, name, fn):
        if name in self.model_cache: return self.model_cache[name]
        m = self.models.lookup(name, fn)
        self.model_cache[name] = m
        return m

    def results(self, st, rs, ins, work, outs, seen):
        """rs: list of (state, value) | (state, value, kind)"""
        ret = None
        for t in rs:
            s, v = t[0], t[1]; kind = t[2] if len(t) > 2 else None
            if kind == 'end':      # process terminates
                self.npaths += 1
                outs.append(Outcome(v[0], v[1:], s)); continue
            if kind == 'throw':
                r = self.throw(s, v, work, outs, seen)
            elif kind == 'push':   # call fn with args, then continue after the instruction with its result
                self.push(s, v[0], v[1], ins); r = 'jumped'
            else:
                r = self.finish_call(s, v, seen)
            if r == 'jumped':
                if s is st: ret = 'jumped'
                else: work.append(s)
        return ret

def _modof(c):
    t = _tagof(c)
    return t if t[:1] == ('modified',) else ('modified', t)

def _tagof(c):
    if c[0] == 'lit': return ('lit', c[1])
    if c[0] in ('c', 'sfx'): return c[2]
    if c[0] == 'unterm': return _tagof(c[1])
    return (c[0],)

def _c(pred, x, y):
    p = pred if len(pred) == 2 else pred[1:]
    return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]

def _swap(pred):
    return {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}[pred]

def _norm(k):
    """canonical form of a comparison: (key, negated)"""
    pred, a, b = k
    p = pred if len(pred) == 2 else pred[1:]
    if p == 'ne': return (('eq',) + tuple(sorted((a, b), key=repr)), True)
    if p == 'eq': return (('eq',) + tuple(sorted((a, b), key=repr)), False)
    if p == 'lt': return (('lt', a, b), False)
    if p == 'ge': return (('lt', a, b), True)
    if p == 'gt': return (('lt', b, a), False)
    if p == 'le': return (('lt', b, a), True)
