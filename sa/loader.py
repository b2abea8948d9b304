"""Typestate analysis of generated C/C++ loaders (properties C01-C08).

Starting from the initial program state, every public call of the loader API is interpreted
abstractly on every reachable abstract loader state until no new state appears (fixpoint).  After
each call the obligations of the properties are checked on every abstract outcome.
"""
import re, collections
from engine import Engine, State, Region, Outcome, uid, _tagof, _has_uid, Budget
from models import Models, MARK

CUR = ('H', 'cur')
NAMES = ['foo_one', 'foo_two', 'foo_three', 'foo_obj']

def walk_tags(t):
    if isinstance(t, tuple):
        yield t
        for x in t: yield from walk_tags(x)

class Loader:
    def __init__(self, mod, lang='c', cfgname='default', feats=(), names=None, deflib=None, slice=None):
        self.slice = slice
        self.mod = mod; self.lang = lang; self.cfg = cfgname; self.feats = set(feats)
        self.names = names or NAMES
        self.deflib = deflib
        self.models = Models({'null_sym': 'win' not in self.feats, 'oom_event': True})
        if lang == 'cxx':
            from models_cxx import CxxModels, inline_pred
            self.models.cxx = CxxModels(self.models)
            self.E = Engine(mod, self.models, inline_pred=inline_pred(mod))
        else:
            self.E = Engine(mod, self.models)
        self.E.hooks['icall'] = self.icall
        self.E.hooks['nullcall'] = 'C05'
        self.nops = 0; self.nstates = 0; self.noutcomes = 0
        self.obl = collections.Counter()
        self.obj = None; self._zi = {}

    # ------------------------------------------------------------- helpers
    def icall(self, E, st, ins, callee, args):
        if callee[0] == 'p' and callee[1][0] == 'S':
            name, h = callee[1][1], callee[1][2]
            if st.tok.get(h) not in ('open', 'closefail'):
                E.report(st, 'C05', 'stale-call', 'function %s of a library that is no longer open is called' % name)
            ret = ('s', uid())
            st.ev += (('call', name, h, tuple(args), ret),)
            return [(st, ret if 'ty' in ins else None)]
        if callee[0] == 's':
            cs = []
            for a in args:
                a = st.res(a)
                if a[0] == 'p' and a[1] in st.mem:
                    c = E.content(st, a, ins, 'callback argument')
                    if c is not None: cs.append(c)
            st.ev += (('cbcall', callee[1], tuple(args), tuple(cs)),)
            return [(st, ('s', uid()) if 'ty' in ins else None)]
        return None

    def rep(self, st, prop, rule, msg, op):
        E = self.E
        fn = self.mod.funcs.get(op.fn)
        w = self.api_where(op)
        E.report(st, prop, rule, '%s [call %s in state %s, configuration %s]' % (msg, op.label, self.sdesc, self.cfg), w)

    def api_where(self, op):
        """the API function the harness entry calls"""
        fn = self.mod.funcs[op.fn]
        best = (fn.dname or fn.dem, fn.file, fn.line)
        for b in fn.blocks:
            for i in b['i']:
                if i['op'] in ('call', 'invoke') and i['callee'][0] == 'f':
                    g = self.mod.funcs.get(i['callee'][1])
                    if g is not None and not g.decl and not g.dem.startswith('std::'): best = (g.dname or g.dem, g.file, g.line)
        return best

    def has(self, fn): return fn in self.mod.funcs and not self.mod.funcs[fn].decl

    def args_for(self, extra):
        return (([self.objp] if self.lang == 'cxx' else []) + list(extra))

    def pure(self, fn, st, extra=()):
        """run an accessor on a copy of st; list of (state, value)"""
        s = st.copy(); s.ev = (); s.path = st.path
        s.exc = None
        args = self.args_for(extra)
        return [o for o in self.E.run(fn, args, s)]

    def bools(self, outs, ins=None):
        """split symbolic boolean results"""
        res = []
        for o in outs:
            if o.kind != 'ret' or o.val is None: res.append((o, None)); continue
            v = o.st.res(o.val)
            if v[0] == 'i': res.append((o, bool(v[1] & 1))); continue
            o.st.frames = []
            s2 = o.st.copy()
            if v[0] == 's':
                if o.st.setrng(v[1], 0, 0): res.append((o, False))
                if s2.setrng(v[1], 1, 1): res.append((Outcome('ret', ('i', 1), s2), True))
            else:
                res.append((o, True)); res.append((Outcome('ret', ('i', 0), s2), False))
        return res

    def ptrs(self, st):
        """{name: None | ('S',name,h) | other}"""
        r = {}
        for n in self.names:
            outs = self.pure('h_ptr_' + n, st)
            vals = set()
            for o in outs:
                v = o.st.res(o.val)
                vals.add(None if v == ('i', 0) else (v[1] if v[0] == 'p' else v))
            r[n] = vals.pop() if len(vals) == 1 else ('multi', tuple(vals))
        return r

    def handle(self, st):
        """handles recorded in global memory"""
        hs = set()
        for rid, r in st.mem.items():
            if rid[0] == 'g' or rid == ('obj',):
                for o, fv in r.fields.items():
                    if fv[1][0] == 'p' and fv[1][1][0] == 'H': hs.add(fv[1][1])
        return hs

    def live_regions(self, st):
        return {k: v for k, v in st.mem.items() if k[0] == 'g' or k == ('obj',)}

    # ------------------------------------------------------------- state normalisation
    def normalise(self, st):
        """post state -> canonical next pre-state (or None)"""
        s = State()
        hs = [h for h in self.handle(st) if st.tok.get(h) in ('open', 'closefail')]
        cur = hs[0] if hs else None
        def rv(v):
            v = st.res(v)
            if v[0] == 'p':
                if v[1] == cur: return ('p', CUR, v[2])
                if v[1][0] == 'H': return ('p', ('H', 'stale'), v[2])
                if v[1][0] == 'S':
                    return ('p', ('S', v[1][1], CUR if v[1][2] == cur else ('H', 'stale')), v[2])
                if v[1][0] == 'heap': return ('p', rmap(v[1]), v[2])
                return v
            if v[0] == 'str': return ('str', rc(v[1]))
            if v[0] in ('s', 'l'):
                l, u, ne = st.rng(v[1]) if v[0] == 's' else (None, None, frozenset())
                n = ('s', uid())
                if v[1] != 'flags' and (l, u) != (None, None) or ne: s.facts[n[1]] = (l, u, ne)
                return n
            if v[0] == 'a': return ('a', tuple(rv(x) for x in v[1]))
            return v
        keep = {}
        def rmap(rid):
            if rid not in keep:
                keep[rid] = ('heap', uid())
                if rid in st.mem:
                    r = st.mem[rid].copy(); s.tok[keep[rid]] = st.tok.get(rid, 'live')
                    s.mem[keep[rid]] = r
                    r.fields = {o: (sz, rv(v)) if not isinstance(o, tuple) else (sz, v) for o, (sz, v) in r.fields.items()}
                    r.strs = {o: rc(c) for o, c in r.strs.items()}
            return keep[rid]
        cm = {}
        def ptag(tag):
            for t in walk_tags(tag):
                if t[:1] == ('path',): return t if t[1] != cur and t[1] != CUR or cur is None and t[1] not in (CUR,) else ('path', CUR) if (t[1] == cur) else ('path', 'stale') if cur != CUR and t[1] == CUR else t
            for t in walk_tags(tag):
                if t[:1] in (('linkmap',), ('dladdr',)): return ('path', CUR) if t[1] == cur and cur is not None else ('path', 'stale')
                if t[:1] in (('procmaps',), ('scan',), ('gmfn',)): return ('path', CUR)
            return None
        def rc(c):
            if c[0] == 'unterm': return ('unterm', rc(c[1]))
            if c[0] == 'lit':
                if c[1] == b'': return c
                return c if len(c[1]) < 200 and c[1] and c in self.keeplits else self.old(s, st, c)
            if c[0] in ('c', 'sfx'):
                if c[1] in ('fname', 'ctorname', 'sname'): return ('c', c[1] + '0', ('old', c[1])) if False else self.argold(s, st, c)
                p = ptag(c[2])
                if p is not None:
                    if c[1] in cm: return cm[c[1]]
                    n = ('c', uid(), p)
                    e = st.emptiness(c)
                    if e: s.set_empt(n, e)
                    cm[c[1]] = n
                    return n
                n = self.old(s, st, c)
                if n[2][:1] == ('argold',):
                    e = st.emptiness(c)
                    if e: s.set_empt(n, e)
                return n
            return c
        for rid, r in st.mem.items():
            if rid[0] == 'g' or rid == ('obj',):
                if r.kind == 'const': continue
                r2 = r.copy()
                r2.fields = {o: (sz, rv(v)) if not (isinstance(o, tuple)) else (sz, v) for o, (sz, v) in r.fields.items() if not (isinstance(o, tuple) and o[0] in ('s', 'l'))}
                r2.strs = {o: rc(c) for o, c in r.strs.items() if isinstance(o, int)}
                if 'win' in self.feats and rid == ('g', 'gdo_hndl'):      # error number: any value
                    for o, (sz, v) in list(r2.fields.items()):
                        if sz == 4 and isinstance(o, int): r2.fields[o] = (4, ('s', uid()))
                if rid == ('obj',):      # flags: any value
                    for o, (sz, v) in list(r2.fields.items()):
                        if sz == 4 and v[0] == 'i': r2.fields[o] = (4, ('s', uid()))
                if r2.default == 'zero':
                    r2.fields = {o: f for o, f in r2.fields.items() if f[1] != ('i', 0)}
                    r2.strs = {o: c for o, c in r2.strs.items() if c != ('lit', b'')}
                    if not r2.fields and not r2.strs and rid[0] == 'g' and self.zero_init(rid[1]): continue
                s.mem[rid] = r2
        if cur is not None: s.tok[CUR] = 'open'
        s.misc['dlerr'] = 'any'
        at = st.misc.get('atexit', ())
        if at: s.misc['atexit'] = tuple(sorted(set(at)))
        for k in ('g_ns', 'g_dtor'):
            if k in st.misc: s.misc[k] = st.misc[k]
        return s

    def zero_init(self, g):
        if g not in self._zi:
            s = State(); self.E.global_region(s, g); r = s.mem[('g', g)]
            self._zi[g] = r.default == 'zero' and all(f[1] == ('i', 0) for f in r.fields.values()) and all(c == ('lit', b'') for c in r.strs.values())
        return self._zi[g]

    keeplits = set()
    OBJ = ('p', ('obj',), 0)

    # ------------------------------------------------------------- C++ objects
    def init_cxx(self, s):
        """statics after global construction, then one object per constructor"""
        self.objp = self.OBJ
        self.keeplits = {('lit', self.deflib)}
        E = self.E
        states = [s]
        for name in sorted(self.mod.funcs):
            f = self.mod.funcs[name]
            if name.startswith('_GLOBAL__sub_I') and not f.decl:
                nxt = []
                for st in states:
                    for o in E.run(name, [], st):
                        o.st.frames = []
                        if o.kind == 'ret': nxt.append(o.st)
                states = nxt
        size = E.run('h_sizeof', [], State())[0].val[1]
        out = []
        def obj(st):
            st = st.copy(); st.ev = (); st.exc = None
            st.mem[('obj',)] = Region(size, 'undef', 'obj', name='object')
            st.misc['g_ns'] = 0; st.misc['g_dtor'] = True
            return st
        def strarg(st, c):
            r = Region(32, 'opq', 'arg', tag=('arg', 'fname')); r.fields[0] = (32, ('str', c))
            st.mem[('arg', 'fname')] = r
            return ('p', ('arg', 'fname'), 0)
        for st in states:
            for o in E.run('h_ctor0', [self.objp], obj(st)): out.append(o)
            for ns in (0,) if self.slice == 'main' else (0, 1):
                for kind in ('name', 'empty'):
                    b = obj(st); b.misc['g_ns'] = ns
                    c = ('lit', b'') if kind == 'empty' else ('c', 'fname', ('arg', 'fname'))
                    if kind == 'name': b.set_empt(c, 'N')
                    for o in E.run('h_ctor3', [self.objp, strarg(b, c), ('s', 'flags'), ('i', ns)], b):
                        self.ctor_post(o, c, ns); out.append(o)
        Op = collections.namedtuple('Op', 'label fn kind arg setup')
        res = []
        for o in out:
            o.st.frames = []
            if o.kind != 'ret':
                self.rep(o.st, 'C05', 'throw', 'a constructor does not return normally', Op('constructor', 'h_ctor0', 'ctor', None, None)); continue
            if any(e[0] in ('open', 'close', 'sym') for e in o.st.ev):
                self.rep(o.st, 'C03', 'unexpected-open', 'a constructor calls the system loader', Op('constructor', 'h_ctor0', 'ctor', None, None))
            for k in [k for k in o.st.mem if k[0] in ('arg',)]: del o.st.mem[k]
            o.st.misc.pop('cxa', None)
            res.append(o.st)
        return res

    sdesc = 'initial'
    def ctor_post(self, o, c, ns):
        Op = collections.namedtuple('Op', 'label fn kind arg setup')
        op = Op('constructor', 'h_ctor3', 'ctor', None, None)
        if o.kind != 'ret': return
        self.obl['constructor'] += 1
        for st, f in self.filename_of(o.st):
            if f is None or not (f == c): self.rep(o.st, 'C04', 'ctor-name', 'the constructor does not record the file name it was given', op)
        for st, f in self.flags_of(o.st):
            if f != ('s', 'flags'): self.rep(o.st, 'C03', 'wrong-flags', 'the constructor does not record the flags it was given', op)

    def filename_of(self, st):
        s = st.copy(); s.ev = (); s.frames = []
        a = self.sret(s)
        return [(o.st, self.retstr(o)) for o in self.E.run('h_filename', [a[0], self.objp], s) if o.kind == 'ret']
    def flags_of(self, st):
        s = st.copy(); s.ev = (); s.frames = []
        return [(o.st, o.st.res(o.val)) for o in self.E.run('h_flags', [self.objp], s) if o.kind == 'ret']
    def old(self, s, st, c):
        """string recorded by an earlier call: contents forgotten"""
        if c[0] == 'c' and isinstance(c[2], tuple) and c[2][:1] == ('argold',): return c
        n = ('c', uid(), ('old',))
        return n
    def argold(self, s, st, c):
        n = ('c', uid(), ('argold', c[1]))
        e = st.emptiness(c)
        if e: s.set_empt(n, e)
        return n

    # ------------------------------------------------------------- operations
    def ops(self):
        Op = collections.namedtuple('Op', 'label fn kind arg setup')
        out = []
        def fname(kind):
            def f(s):
                if kind == 'null': return ('i', 0)
                r = Region(None, 'opq', 'arg', tag=('arg', 'fname'))
                if kind == 'empty': c = ('lit', b'')
                else:
                    c = ('c', 'fname', ('arg', 'fname')); s.set_empt(c, 'N')
                if self.lang == 'cxx': r.size = 32; r.fields[0] = (32, ('str', c))
                else: r.strs[0] = c
                s.mem[('arg', 'fname')] = r
                return ('p', ('arg', 'fname'), 0)
            return f
        def strarg(lit=None):
            def f(s):
                r = Region(len(lit) + 1 if lit is not None else None, 'opq', 'arg', tag=('arg', 'sname'))
                if lit is not None: r.strs[0] = ('lit', lit)
                else:
                    r.strs[0] = ('c', 'sname', ('arg', 'sname')); s.set_empt(r.strs[0], 'N')
                s.mem[('arg', 'sname')] = r
                return ('p', ('arg', 'sname'), 0)
            return f
        fk = ('null', 'empty', 'name') if self.lang == 'c' else ('empty', 'name')
        for k in fk:
            for fn, w in (('h_load_name', ''), ('h_load_name_syms', 'syms')):
                if self.has(fn): out.append(Op('%s(%s)' % (fn[2:], k), fn, 'load' + w, k, lambda s, k=k: [self.fn_arg(s, k, fname)]))
            for ns in (0, 1):
                if self.has('h_load_args'):
                    out.append(Op('load_args(%s,ns=%d)' % (k, ns), 'h_load_args', 'loadargs', (k, ns),
                              lambda s, k=k, ns=ns: [self.fn_arg(s, k, fname), ('s', 'flags'), ('i', ns)]))
        if self.has('h_load_def'): out.append(Op('load_default', 'h_load_def', 'loaddef', None, lambda s: []))
        if self.has('h_load_def_syms'): out.append(Op('load_default_syms', 'h_load_def_syms', 'loaddefsyms', None, lambda s: []))
        out.append(Op('free', 'h_free', 'free', None, lambda s: []))
        out.append(Op('force_free', 'h_force_free', 'force', None, lambda s: []))
        if self.has('h_autorel'): out.append(Op('autorelease', 'h_autorel', 'autorel', None, lambda s: []))
        out.append(Op('load_all_symbols', 'h_load_all', 'all', None, lambda s: []))
        nums = {}
        for n in self.names:
            o = self.pure('h_num_' + n, self.init_probe())
            nums[n] = o[0].val[1]
        self.nums = nums
        if len(set(nums.values())) != len(nums):
            self.E.report(self.init_probe(), 'C04', 'enum', 'two symbols share one GDO_LOAD_ number', ('GDO_LOAD_*', '', 0))
        for n in self.names:
            out.append(Op('load_symbol(%s)' % n, 'h_load_num', 'sym', n, lambda s, n=n: [('i', nums[n])]))
        def unknown_num(s):
            s.facts['num'] = (-2**31, 2**31 - 1, frozenset(nums.values()))
            return [('s', 'num')]
        out.append(Op('load_symbol(unknown number)', 'h_load_num', 'sym', None, unknown_num))
        for n in self.names:
            out.append(Op('load_symbol_name("%s")' % n, 'h_load_sym', 'sym', n, lambda s, n=n: [strarg(n.encode())(s)]))
        out.append(Op('load_symbol_name(NULL)', 'h_load_sym', 'sym', None, lambda s: [('i', 0)]))
        out.append(Op('load_symbol_name("")', 'h_load_sym', 'sym', None, lambda s: [strarg(b'')(s)]))
        out.append(Op('load_symbol_name(any other)', 'h_load_sym', 'symany', None, lambda s: [strarg()(s)]))
        for q in ('all', 'no', 'any'):
            out.append(Op('q_' + q, 'h_q_' + q, 'q', q, lambda s: []))
        out.append(Op('loaded', 'h_loaded', 'q', 'loaded', lambda s: []))
        out.append(Op('last_error', 'h_err', 'err', None, lambda s: self.sret(s)))
        out.append(Op('library_path', 'h_path', 'path', None, lambda s: self.sret(s)))
        if self.lang == 'cxx':
            out.append(Op('free(force) of another object', 'h_other_free', 'other', 'free', lambda s: []))
            for k in ('name', 'empty'):
                out.append(Op('load(%s) of another object' % k, 'h_other_load', 'other', 'load', lambda s, k=k: [self.fn_arg(s, k, fname)]))
            out.append(Op('load_all_symbols of another object', 'h_other_all', 'other', 'all', lambda s: []))
            out.append(Op('destructor', 'h_dtor', 'dtor', None, lambda s: []))
            for b in (0, 1): out.append(Op('free_lib_in_dtor(%d)' % b, 'h_set_dtor', 'setdtor', b, lambda s, b=b: [('i', b)]))
            if self.has('h_set_cb'):
                def cb(s):
                    s.facts['cb'] = (1, None, frozenset()); return [('s', 'cb')]
                out.append(Op('message_callback(user)', 'h_set_cb', 'setcb', 1, cb))
                out.append(Op('message_callback(NULL)', 'h_set_cb', 'setcb', 0, lambda s: [('i', 0)]))
        for n in self.names:
            fn = 'h_wrap_' + n
            if self.has(fn):
                na = len(self.mod.funcs[fn].args)
                if self.lang == 'cxx': na -= 1
                out.append(Op('wrapper %s' % n, fn, 'wrap', n, lambda s, na=na: [('s', 'arg%d' % i) for i in range(na)]))
        return out

    def fn_arg(self, s, k, mk): return mk(k)(s)

    def sret(self, s):
        if self.lang != 'cxx': return []
        s.mem[('ret',)] = Region(32, 'undef', 'loc')
        return [('p', ('ret',), 0)]

    def init_probe(self): return self.initial()[0]

    def initial(self):
        s = State()
        s.misc['dlerr'] = 'any'
        if self.lang == 'cxx': return self.init_cxx(s)
        return [s]

    # ------------------------------------------------------------- fixpoint
    def run(self):
        work = list(self.initial()); seen = set()
        ops = [op for op in self.ops() if self.in_slice(op)]
        self.samples = []
        while work:
            pre = work.pop(0)
            pre = self.normalise(pre)
            k = pre.key(self.E.live)
            if k in seen: continue
            seen.add(k); self.nstates += 1
            if self.nstates > 3000: raise Budget('loader states')
            P = self.ptrs(pre)
            H = CUR if pre.tok.get(CUR) == 'open' else None
            self.sdesc = 'handle=%s,symbols={%s}' % ('open' if H else 'null', ','.join(n for n in self.names if P[n]))
            # invariants of every reachable state
            for n, p in P.items():
                self.obl['ptr-invariant'] += 1
            for op in ops:
                if op.kind == 'dtor_only': continue
                for post in self.do(op, pre, P, H):
                    work.append(post)
        return self

    def in_slice(self, op):
        """the settings of a C++ object (namespace, release at destruction, callback) are explored with restricted symbol operations"""
        if self.lang == 'c' or self.slice is None: return True
        if self.slice == 'main': return not (op.kind in ('setdtor', 'setcb') or op.kind == 'loadargs' and op.arg[1])
        return op.kind not in ('sym', 'symany', 'q', 'path', 'err', 'all')
    def do(self, op, pre, P, H):
        self.nops += 1
        st = pre.copy(); st.ev = (); st.path = None
        args = op.setup(st)
        if self.lang == 'cxx':
            args = ([args[0], self.objp] + args[1:]) if op.kind in ('err', 'path') else [self.objp] + args
        libpre = None
        if self.lang == 'cxx': self.ghost(op, st)
        outs = self.bools(self.E.run(op.fn, args, st)) if op.kind not in ('err', 'path', 'force', 'wrap', 'dtor', 'setdtor', 'setcb') else [(o, None) for o in self.E.run(op.fn, args, st)]
        posts = []
        for o, b in outs:
            self.noutcomes += 1
            if self.check(op, o, b, pre, P, H): posts.append(o.st)
        return posts

    def ghost(self, op, st):
        if op.kind in ('load', 'loadsyms'): st.misc['g_ns'] = 0
        if op.kind == 'loadargs': st.misc['g_ns'] = op.arg[1]
        if op.kind == 'setdtor': st.misc['g_dtor'] = bool(op.arg)

    def msg_of(self, st):
        """contents returned by the last-error query, evaluated on st"""
        res = []
        s = st.copy(); s.ev = ()
        args = self.sret(s)
        args = [args[0], self.objp] if self.lang == 'cxx' else []
        for o in self.E.run('h_err', args, s):
            if o.kind != 'ret': res.append((o.st, None)); continue
            res.append((o.st, self.retstr(o)))
        return res

    def retstr(self, o):
        if self.lang == 'cxx':
            f = o.st.mem[('ret',)].fields.get(0)
            return f[1][1] if f and f[1][0] == 'str' else None
        v = o.st.res(o.val)
        if v == ('i', 0): return None
        return self.E.content(o.st, v, None, 'returned string') if o.st.frames else self._content(o.st, v)

    def _content(self, st, v):
        f = next(self.mod.funcs[n] for n in ('h_err', 'h_load') if n in self.mod.funcs); f.prep()

        self.E.push(st, f, [], None)
        try: return self.E.content(st, v, None, 'returned string')
        finally: st.frames.pop()

    NOERR = re.compile(rb'no error', re.I)
    def check_err(self, op, o, kind, pre):
        """C06: message after a failing call"""
        for s, c in self.msg_of(o.st):
            self.obl['error message'] += 1
            if c is None:
                self.rep(o.st, 'C06', 'null-message', 'the last-error query yields nothing after a failing call', op); continue
            if s.emptiness(c) != 'N':
                self.rep(o.st, 'C06', 'empty-message', 'the error message may be empty after a failing call', op); continue
            t = _tagof(c)
            flat = list(walk_tags(t))
            txt = b' '.join(x[1] for x in flat if len(x) > 1 and x[0] == 'lit' and isinstance(x[1], bytes)) + b' ' + b' '.join(x[1] for x in flat if len(x) > 2 and x[0] == 'fmt' and isinstance(x[1], bytes))
            if any(x[:1] == ('old',) for x in flat):
                self.rep(o.st, 'C06', 'stale-message', 'the error message after a failing call stems from an earlier call', op); continue
            if self.NOERR.search(txt):
                self.rep(o.st, 'C06', 'no-error-message', 'the failing call records no error message (the query answers "%s")' % txt.decode('latin1').strip(), op); continue
            self.check_truth(op, s, o, kind, txt, flat)

    WORDS = {'already': rb'already', 'empty': rb'empty|null|no (file)?name|invalid|missing', 'notloaded': rb'no library|not loaded|not .*open',
             'unknown': rb'unknown|not found|invalid|no such'}
    def check_truth(self, op, s, o, kind, txt, flat):
        if kind in self.WORDS:
            other = [k for k, w in self.WORDS.items() if k != kind and re.search(w, txt, re.I)]
            if not re.search(self.WORDS[kind], txt, re.I) and other:
                self.rep(o.st, 'C06', 'wrong-message', 'the message "%s" describes a different failure (%s) than the one that occurred (%s)' % (txt.decode('latin1').strip(), other[0], kind), op)
        elif kind in ('open', 'sym', 'close'):
            for k in ('already', 'notloaded'):
                if re.search(self.WORDS[k], txt, re.I):
                    self.rep(o.st, 'C06', 'wrong-message', 'the message "%s" does not describe the failed system call' % txt.decode('latin1').strip(), op)

    # ------------------------------------------------------------- obligations
    def check(self, op, o, b, pre, P, H):
        E = self.E; st = o.st; ev = st.ev
        st.frames = []
        if o.kind == 'throw':
            self.rep(st, 'C13' if False else 'C05', 'throw', 'an exception escapes', op); return False
        # C08: resources
        self.obl['resources released'] += 1
        reach = set()
        for rid, r in self.live_regions(st).items():
            for fv in r.fields.values():
                if fv[1][0] == 'p': reach.add(fv[1][1])
        ended = o.kind in ('exit', 'abort')
        for t, v in st.tok.items():
            if ended: break
            if t[0] in ('fd', 'FILE') and v == 'open':
                self.rep(st, 'C08', 'leak', 'a %s opened during the call is never closed' % ('file descriptor' if t[0] == 'fd' else 'stream'), op)
            if t[0] == 'heap' and v == 'live' and t not in reach:
                self.rep(st, 'C08', 'leak', 'a heap block allocated during the call is never released', op)
        # C03: handle bookkeeping
        self.obl['handle bookkeeping'] += 1
        rec = self.handle(st)
        openh = [t for t, v in st.tok.items() if t[0] == 'H' and v in ('open', 'closefail')]
        for t in openh:
            if t not in rec:
                if st.tok[t] == 'closefail' and (op.kind in ('force', 'dtor') or op.fn == 'h_other_free' or ended): st.tok[t] = 'dead'; continue
                if ended: continue
                self.rep(st, 'C03', 'handle-lost', 'an open library handle is no longer recorded by the loader', op)
        for t in rec:
            if st.tok.get(t) not in ('open', 'closefail'):
                self.rep(st, 'C03', 'stale-handle', 'the loader still records a library handle that was closed', op)
        closes = [e for e in ev if e[0] == 'close']
        if len(closes) > 1 and len(closes) != len(set(e[1] for e in closes)):
            self.rep(st, 'C03', 'double-close', 'the same handle is passed to the unload function twice in one call', op)
        if ended:
            return self.check_end(op, o, pre, P, H)
        Q = self.ptrs(st)
        cur = next((h for h in rec if st.tok.get(h) in ('open', 'closefail')), None)
        # pointer truth in every state (C01/C02/C04)
        for n, q in Q.items():
            self.obl['pointer truth'] += 1
            if q is None: continue
            if not (isinstance(q, tuple) and q[0] == 'S'):
                self.rep(st, 'C04', 'bad-pointer', 'pointer of %s holds a value that no symbol lookup returned' % n, op); continue
            if q[1] != n:
                self.rep(st, 'C01' if op.kind in ('all', 'loadsyms', 'loaddefsyms') else 'C04', 'wrong-symbol', 'pointer of %s holds the address of %s' % (n, q[1]), op)
            if q[2] != cur:
                self.rep(st, 'C02' if op.kind in ('free', 'force', 'dtor') else 'C01', 'stale-pointer', 'pointer of %s still refers to a library that is not the open one' % n, op)
        loaded = self.loaded(st)
        if loaded is None or loaded != (cur is not None):
            self.rep(st, 'C02' if op.kind in ('free', 'force', 'dtor') else 'C03', 'loaded-query', 'the is-loaded query answers %s although a library is%s open' % (loaded, '' if cur else ' not'), op)
        getattr(self, 'chk_' + op.kind)(op, o, b, pre, P, H, Q, cur, ev)
        if op.kind in ('free', 'force') and cur is None:
            for s, c in self.path_of(st):
                self.obl['no path after free'] += 1
                if c is not None and s.emptiness(c) != 'E':
                    self.rep(st, 'C02', 'path-after-free', 'a library path is still reported after the library was freed', op)
        return op.kind != 'dtor'

    def path_of(self, st):
        s = st.copy(); s.ev = ()
        args = self.sret(s)
        args = [args[0], self.objp] if self.lang == 'cxx' else []
        res = []
        for o in self.E.run('h_path', args, s):
            if o.kind == 'ret': res.append((o.st, self.retstr(o)))
        return res

    def loaded(self, st):
        vals = set()
        for o, b in self.bools(self.pure('h_loaded', st)): vals.add(b)
        return vals.pop() if len(vals) == 1 else None

    def unchanged(self, op, st, P, Q, H, cur, prop, why):
        self.obl['unchanged'] += 1
        if P != Q: self.rep(st, prop, 'pointers-changed', '%s, yet symbol pointers changed' % why, op)
        if (cur is not None) != (H is not None) or (H is not None and cur != H):
            self.rep(st, prop, 'handle-changed', '%s, yet the library handle changed' % why, op)

    def noev(self, op, st, ev, kinds, prop, why):
        for e in ev:
            if e[0] in kinds:
                self.rep(st, prop, 'unexpected-' + e[0], '%s, yet the system %s function is called' % (why, {'open': 'load', 'close': 'unload', 'sym': 'symbol lookup'}[e[0]]), op)

    def load_common(self, op, o, b, P, H, Q, cur, ev, name_ok, want, flags, ns, syms):
        st = o.st
        opens = [e for e in ev if e[0] == 'open']
        self.obl['load outcome'] += 1
        if H is not None or not name_ok:
            why = 'a library is already loaded' if H is not None else 'the name is null or empty'
            if b is not False: self.rep(st, 'C03', 'load-accepted', '%s, yet the load call reports success' % why, op)
            self.noev(op, st, ev, ('open', 'close', 'sym'), 'C03', why)
            self.unchanged(op, st, P, Q, H, cur, 'C03', why)
            if b is False: self.check_err(op, o, 'already' if H is not None else 'empty', None)
            return
        self.noev(op, st, ev, ('close',), 'C03', 'nothing is loaded')
        if not opens and any(e[0] == 'sysfail' for e in ev):      # the name could not be copied or converted
            if b is not False: self.rep(st, 'C03', 'failed-open-accepted', 'the library was not opened, yet the call reports success', op)
            if cur is not None: self.rep(st, 'C03', 'handle-after-failure', 'the library was not opened, yet a handle is recorded', op)
            if b is False: self.check_err(op, o, 'open', None)
            return
        if len(opens) != 1:
            self.rep(st, 'C03', 'open-count', 'the load call opens %d libraries instead of one' % len(opens), op); return
        _, c, fl, nsv, h = opens[0]
        t = _tagof(c)
        if not self.same_name(c, want):
            self.rep(st, 'C03' if op.kind not in ('loaddef', 'loaddefsyms') else 'C04', 'wrong-name', 'the library opened is not the requested one', op)
        if flags is not None:
            f = st.res(fl)
            if f != flags: self.rep(st, 'C03', 'wrong-flags', 'the flags passed to the system are not the caller\'s', op)
        dlm = nsv is not None
        if 'dlmopen' in self.feats:
            if dlm != bool(ns): self.rep(st, 'C03', 'wrong-namespace', 'the namespace request of the caller is not passed on', op)
            if dlm and st.res(nsv) != ('i', -1): self.rep(st, 'C03', 'wrong-namespace', 'the library is not opened in a new namespace', op)
        if h is None:
            if b is not False: self.rep(st, 'C03', 'failed-open-accepted', 'opening the library failed, yet the call reports success', op)
            if cur is not None: self.rep(st, 'C03', 'handle-after-failure', 'opening failed, yet a handle is recorded', op)
            if b is False: self.check_err(op, o, 'open', None)
            if any(Q.values()): self.rep(st, 'C01', 'pointer-without-library', 'symbol pointers are set although no library is open', op)
            return
        if cur != h: self.rep(st, 'C03', 'handle-not-recorded', 'the opened library is not recorded', op)
        if self.lang == 'cxx':
            for s, f in self.filename_of(st):
                if f is None or not self.same_name(f, want): self.rep(st, 'C04', 'filename', 'the file-name query does not yield the name that was loaded', op)
            for s, f in self.flags_of(st):
                if f != flags and flags is not None: self.rep(st, 'C03', 'wrong-flags', 'the flags query does not yield the flags that were used', op)
        if not syms:
            if b is not True: self.rep(st, 'C03', 'open-rejected', 'the library was opened, yet the call reports failure', op)
            if any(Q.values()) and not any(e[0] == 'sym' for e in ev): self.rep(st, 'C01', 'pointer-appeared', 'loading the library alone set symbol pointers', op)
            if b: self.ok_err(op, o)
        else: self.all_common(op, o, b, P, Q, cur, ev)

    def ok_err(self, op, o):
        """a successful call clears what was recorded before"""
        for s, c in self.msg_of(o.st):
            self.obl['error cleared'] += 1
            if c is None: self.rep(o.st, 'C06', 'null-message', 'the last-error query yields nothing', op); continue
            flat = list(walk_tags(_tagof(c)))
            if any(x[:1] == ('old',) for x in flat):
                self.rep(o.st, 'C06', 'not-cleared', 'a successful call leaves the message of an earlier failure behind', op)
            if s.emptiness(c) != 'N': self.rep(o.st, 'C06', 'empty-message', 'the last-error query may yield an empty string', op)

    def chk_dtor(self, op, o, b, pre, P, H, Q, cur, ev):
        self.obl['destructor'] += 1
        if pre.misc.get('g_dtor', True): self.chk_force(op, o, b, pre, P, H, Q, cur, ev)
        else:
            self.noev(op, o.st, ev, ('open', 'close', 'sym'), 'C02', 'releasing at destruction was disabled')
            self.unchanged(op, o.st, P, Q, H, cur, 'C02', 'releasing at destruction was disabled')
    def chk_setdtor(self, op, o, b, pre, P, H, Q, cur, ev):
        self.noev(op, o.st, ev, ('open', 'close', 'sym'), 'C02', 'this only changes a setting')
        self.unchanged(op, o.st, P, Q, H, cur, 'C02', 'this only changes a setting')
    def chk_setcb(self, op, o, b, pre, P, H, Q, cur, ev):
        self.noev(op, o.st, ev, ('open', 'close', 'sym'), 'C05', 'this only changes a setting')
        self.unchanged(op, o.st, P, Q, H, cur, 'C05', 'this only changes a setting')

    def same_name(self, c, want):
        if want[0] == 'lit': return c[0] == 'lit' and c[1] == want[1]
        if 'win' in self.feats and c[0] == 'c' and c[2] == ('modified', ('arg', want[1])): return True      # separators replaced in a copy
        return c[0] == 'c' and c[1] == want[1]

    def all_common(self, op, o, b, P, Q, cur, ev):
        st = o.st
        missing = [n for n in self.names if not Q[n]]
        self.obl['load-all truth'] += 1
        if b is True and missing:
            self.rep(st, 'C01', 'partial-success', 'success is reported although %s is null' % ', '.join(missing), op)
        fails = [e for e in ev if e[0] == 'sym' and not e[3]]
        if b is False:
            if not missing or not fails and cur is not None: self.rep(st, 'C01', 'spurious-failure', 'failure is reported although no symbol failed to resolve', op)
            self.check_err(op, o, 'sym', None)
        if b is True and fails:
            if any(True for e in fails if not Q.get(e[1])): self.rep(st, 'C01', 'ignored-failure', 'success is reported although %s did not resolve' % fails[0][1], op)
        if b is True: self.ok_err(op, o)

    def defname(self): return ('lit', self.deflib) if self.deflib is not None else None
    def ctorname(self): return ('lit', self.deflib)

    def chk_load(self, op, o, b, pre, P, H, Q, cur, ev):
        self.load_common(op, o, b, P, H, Q, cur, ev, op.arg == 'name', ('c', 'fname'), self.default_flags(), 0, False)
    def chk_loadsyms(self, op, o, b, pre, P, H, Q, cur, ev):
        self.load_common(op, o, b, P, H, Q, cur, ev, op.arg == 'name', ('c', 'fname'), self.default_flags(), 0, True)
    def chk_loadargs(self, op, o, b, pre, P, H, Q, cur, ev):
        self.load_common(op, o, b, P, H, Q, cur, ev, op.arg[0] == 'name', ('c', 'fname'), ('s', 'flags'), op.arg[1], False)
    def chk_loaddef(self, op, o, b, pre, P, H, Q, cur, ev, syms=False):
        if self.lang == 'c': return self.load_common(op, o, b, P, H, Q, cur, ev, True, self.defname(), self.default_flags(), 0, syms)
        for st, f in self.filename_of(pre):
            for st2, fl in self.flags_of(pre):
                self.load_common(op, o, b, P, H, Q, cur, ev, f is not None and st.emptiness(f) == 'N', f, fl, pre.misc.get('g_ns', 0), syms)
    def chk_loaddefsyms(self, op, o, b, pre, P, H, Q, cur, ev):
        self.chk_loaddef(op, o, b, pre, P, H, Q, cur, ev, True)
    def default_flags(self):
        if not hasattr(self, '_df'):
            self._df = self.pure('h_flags', self.init_probe())[0].val if self.lang == 'c' else self.E.run('h_default_flags', [], State())[0].val
        return self._df

    def chk_free(self, op, o, b, pre, P, H, Q, cur, ev):
        st = o.st
        closes = [e for e in ev if e[0] == 'close']
        self.obl['free outcome'] += 1
        if H is None:
            self.noev(op, st, ev, ('close', 'open', 'sym'), 'C02', 'nothing is loaded')
            if b is not True: self.rep(st, 'C02', 'free-nothing-fails', 'freeing reports failure although nothing is loaded', op)
        else:
            if len(closes) != 1 or closes[0][1] != H:
                self.rep(st, 'C02', 'not-closed', 'freeing does not pass the open library to the unload function exactly once', op); return
            ok = closes[0][2]
            if b is not ok: self.rep(st, 'C02', 'free-result', 'the unload function %s, yet freeing reports %s' % ('succeeded' if ok else 'failed', b), op)
            if not ok:
                self.unchanged(op, st, P, Q, H, cur, 'C02', 'the system refused to unload')
                self.same_path(op, pre, st)
                if b is False: self.check_err(op, o, 'close', None)
                return
        if cur is not None: self.rep(st, 'C02', 'handle-kept', 'the library still reads as loaded after it was freed', op)
        for n in self.names:
            if Q[n] is not None: self.rep(st, 'C02', 'pointer-kept', 'pointer of %s is not null after the library was freed' % n, op)
        if b: self.ok_err(op, o)

    def chk_other(self, op, o, b, pre, P, H, Q, cur, ev):
        """the handle and the pointers are shared by all objects"""
        st = o.st
        self.obl['second object'] += 1
        if op.arg == 'free':
            if cur is not None: self.rep(st, 'C02', 'handle-kept', 'the library still reads as loaded after a forced free', op)
            for n in self.names:
                if Q[n] is not None: self.rep(st, 'C02', 'pointer-kept', 'pointer of %s is not null after a forced free' % n, op)
        elif op.arg == 'load':
            if H is not None: self.noev(op, st, ev, ('open', 'close', 'sym'), 'C03', 'a library is already loaded'); self.unchanged(op, st, P, Q, H, cur, 'C03', 'a library is already loaded')
            if b is not (any(e[0] == 'open' and e[4] is not None for e in ev)):
                self.rep(st, 'C03', 'load-result', 'loading reports %s' % b, op)
        else:
            if H is None and b is not False: self.rep(st, 'C01', 'success-without-library', 'success is reported although no library is loaded', op)
            if b and not all(Q.values()): self.rep(st, 'C01', 'partial-success', 'success is reported although a pointer is null', op)

    def strs_key(self, st):
        out = []
        for rid, r in self.live_regions(st).items():
            if r.kind == 'const': continue
            for o_, c in r.strs.items():
                if c[0] == 'c' and any(t[:1] == ('path',) for t in walk_tags(c[2])): out.append((str(rid), str(o_)))
            for o_, fv in r.fields.items():
                if fv[1][0] == 'str':
                    c = fv[1][1]
                    if c[0] == 'c' and any(t[:1] == ('path',) for t in walk_tags(c[2])): out.append((str(rid), str(o_)))
        return sorted(out)

    def same_path(self, op, pre, st):
        a = self.strs_key(pre); b = self.strs_key(st)
        if a != b: self.rep(st, 'C02', 'path-changed', 'the system refused to unload, yet the recorded library path changed', op)

    def chk_force(self, op, o, b, pre, P, H, Q, cur, ev):
        st = o.st
        closes = [e for e in ev if e[0] == 'close']
        self.obl['forced free'] += 1
        if H is None: self.noev(op, st, ev, ('close', 'open', 'sym'), 'C02', 'nothing is loaded')
        elif len(closes) != 1 or closes[0][1] != H:
            self.rep(st, 'C02', 'not-closed', 'a forced free does not pass the open library to the unload function exactly once', op)
        if cur is not None: self.rep(st, 'C02', 'handle-kept', 'the library still reads as loaded after a forced free', op)
        for n in self.names:
            if Q[n] is not None: self.rep(st, 'C02', 'pointer-kept', 'pointer of %s is not null after a forced free' % n, op)

    def chk_autorel(self, op, o, b, pre, P, H, Q, cur, ev):
        st = o.st
        self.noev(op, st, ev, ('open', 'close', 'sym'), 'C02', 'registering the automatic release')
        self.unchanged(op, st, P, Q, H, cur, 'C02', 'registering the automatic release')
        at = st.misc.get('atexit', ()); at0 = pre.misc.get('atexit', ())
        self.obl['autorelease'] += 1
        if b is True and not at: self.rep(st, 'C02', 'autorelease', 'automatic release is reported as registered although nothing was registered', op)
        if b is False: self.check_err(op, o, 'atexit', None)
        for f in at:
            if f[0] != 'f': continue
            s = st.copy(); s.ev = (); s.path = st.path
            for r in self.E.run(f[1], [], s):
                Q2 = self.ptrs(r.st)
                if any(Q2.values()) or any(r.st.tok.get(h) in ('open', 'closefail') for h in self.handle(r.st)) or \
                   (cur is not None and r.st.tok.get(cur) == 'open'):
                    self.rep(st, 'C02', 'autorelease', 'the registered exit handler does not release the library and reset the pointers', op)

    def chk_all(self, op, o, b, pre, P, H, Q, cur, ev):
        st = o.st
        self.noev(op, st, ev, ('open', 'close'), 'C03', 'only symbols are loaded')
        if H is None:
            if b is not False: self.rep(st, 'C01', 'success-without-library', 'success is reported although no library is loaded', op)
            self.noev(op, st, ev, ('sym',), 'C03', 'no library is loaded')
            self.unchanged(op, st, P, Q, H, cur, 'C01', 'no library is loaded')
            if b is False: self.check_err(op, o, 'notloaded', None)
            return
        self.all_common(op, o, b, P, Q, cur, ev)

    def chk_sym(self, op, o, b, pre, P, H, Q, cur, ev, name=None):
        st = o.st; n = op.arg if name is None else name
        self.obl['single symbol'] += 1
        self.noev(op, st, ev, ('open', 'close'), 'C03', 'only a symbol is loaded')
        for m in self.names:
            if m != n and P[m] != Q[m]:
                self.rep(st, 'C04', 'other-pointer', 'loading %s changes the pointer of %s' % (n or 'an unknown symbol', m), op)
        if H is None or n is None:
            why = 'no library is loaded' if H is None else 'the symbol is unknown'
            if b is not False: self.rep(st, 'C04', 'unknown-accepted', '%s, yet loading it reports success' % why, op)
            if P != Q: self.rep(st, 'C04', 'pointer-changed', '%s, yet a pointer changed' % why, op)
            if H is None: self.noev(op, st, ev, ('sym',), 'C03', 'no library is loaded')
            if b is False: self.check_err(op, o, 'notloaded' if H is None else ('empty' if 'NULL' in op.label or '("")' in op.label else 'unknown'), None)
            return
        if b is not (Q[n] is not None):
            self.rep(st, 'C04', 'wrong-result', 'loading %s reports %s although its pointer is %s' % (n, b, 'set' if Q[n] else 'null'), op)
        fails = [e for e in ev if e[0] == 'sym' and e[1] == n and not e[3]]
        if b is False and not fails:
            self.rep(st, 'C04', 'not-tried', 'loading %s fails without looking it up' % n, op)
        if P[n] is not None and Q[n] is None:
            self.rep(st, 'C04', 'pointer-lost', 'loading %s again resets its pointer' % n, op)
        if b is False: self.check_err(op, o, 'sym', None)
        if b is True: self.ok_err(op, o)

    def chk_symany(self, op, o, b, pre, P, H, Q, cur, ev):
        """arbitrary non-empty name: success only if the bytes are those of a declared symbol"""
        c = self.models.concrete(o.st, ('c', 'sname', None))
        n = c[1].decode('latin1') if c[0] == 'lit' else None
        if n in self.names: return self.chk_sym(op, o, b, pre, P, H, Q, cur, ev, name=n)
        return self.chk_sym(op, o, b, pre, P, H, Q, cur, ev)

    def chk_q(self, op, o, b, pre, P, H, Q, cur, ev):
        st = o.st
        self.obl['queries'] += 1
        self.noev(op, st, ev, ('open', 'close', 'sym'), 'C04', 'this is only a query')
        self.unchanged(op, st, P, Q, H, cur, 'C04', 'this is only a query')
        n = sum(1 for x in self.names if P[x])
        want = {'all': n == len(self.names), 'no': n == 0, 'any': n > 0, 'loaded': H is not None}[op.arg]
        if b is not want:
            self.rep(st, 'C03' if op.arg == 'loaded' else ('C01' if op.arg == 'all' and b else 'C04'), 'query', 'the query answers %s' % b, op)

    def chk_err(self, op, o, b, pre, P, H, Q, cur, ev):
        st = o.st
        self.noev(op, st, ev, ('open', 'close', 'sym'), 'C06', 'this is only a query')
        self.unchanged(op, st, P, Q, H, cur, 'C06', 'this is only a query')
        c = self.retstr(o)
        self.obl['last error'] += 1
        if c is None: self.rep(st, 'C06', 'null-message', 'the last-error query yields a null pointer', op)
        elif st.emptiness(c) != 'N': self.rep(st, 'C06', 'empty-message', 'the last-error query may yield an empty string', op)

    def chk_path(self, op, o, b, pre, P, H, Q, cur, ev):
        st = o.st
        self.noev(op, st, ev, ('open', 'close', 'sym'), 'C08', 'this is only a query')
        self.unchanged(op, st, P, Q, H, cur, 'C08', 'this is only a query')
        c = self.retstr(o)
        self.obl['library path'] += 1
        if c is None or st.emptiness(c) == 'E':
            if c is not None and self.lang == 'c': self.rep(st, 'C08', 'empty-path', 'an empty library path is reported', op)
            self.check_err(op, o, 'notloaded' if H is None else 'path', None)
            return
        if H is None: self.rep(st, 'C08', 'path-without-library', 'a library path is reported although no library is loaded', op); return
        if st.emptiness(c) != 'N': self.rep(st, 'C08', 'empty-path', 'the reported library path may be empty', op)
        t = list(walk_tags(_tagof(c)))
        ok = any((x[:1] in (('linkmap',), ('dladdr',), ('path',)) and x[1] == H) or x[:1] in (('procmaps',),) for x in t)
        if any(x[:1] == ('scan',) for x in t): ok = self.scan_ok(st, c)
        if any(x[:1] == ('gmfn',) and x[1] == H for x in t): ok = True
        if any(x[:1] in (('trunc',), ('modified',)) for x in t): ok = False
        if ('path', 'stale') in t:
            self.rep(st, 'C08', 'stale-path', 'the reported path is that of an earlier library, not of the open one', op); return
        if not ok: self.rep(st, 'C08', 'path-provenance', 'the reported path did not come from the system for the open library', op)

    def scan_ok(self, st, c):
        """a path scanned from /proc/self/maps must belong to a line whose address range was compared with the load address on both ends"""
        ok = set()
        isla = lambda t: t[0] == 'ld' and t[1] and t[1][0] == 'linkmap'
        issc = lambda t: t[0] == 'scan'
        for op, ta, tb, v in st.misc.get('cmp', ()):
            if op == 'eq' and v and (isla(ta) and issc(tb) or isla(tb) and issc(ta)): return True
            if op == 'lt' and issc(tb) and isla(ta): ok.add(('low' if not v else 'high', tb[2]))    # addr < field
            if op == 'lt' and issc(ta) and isla(tb) : ok.add(('low' if v else 'high?', ta[2]))      # field < addr
        lows = {f for k, f in ok if k == 'low'}; highs = {f for k, f in ok if k == 'high'}
        return any(l != h for l in lows for h in highs)

    def chk_wrap(self, op, o, b, pre, P, H, Q, cur, ev):
        st = o.st; n = op.arg
        self.obl['wrapper'] += 1
        calls = [e for e in ev if e[0] == 'call']
        na = len([1 for a in self.mod.funcs[op.fn].args]) - (1 if self.lang == 'cxx' else 0)
        if len(calls) != 1:
            self.rep(st, 'C05', 'call-count', 'the wrapper of %s returns after calling %d functions' % (n, len(calls)), op); return
        _, name, h, args, ret = calls[0]
        if name != n: self.rep(st, 'C05', 'wrong-function', 'the wrapper of %s calls %s' % (n, name), op)
        want = tuple(('s', 'arg%d' % i) for i in range(na))
        got = tuple(st.res(a) for a in args)
        if got != want: self.rep(st, 'C05', 'arguments', 'the wrapper of %s does not pass on its arguments unchanged and in order' % n, op)
        if self.mod.funcs[op.fn].d['ret'] != 'void' and (o.val is None or st.res(o.val) != st.res(ret)):
            self.rep(st, 'C05', 'result', 'the wrapper of %s does not return the result of the function' % n, op)
        self.wrap_common(op, o, pre, P, H, Q, cur, ev)
        if P[n] is not None:
            self.noev(op, st, ev, ('open', 'close', 'sym'), 'C05', 'the symbol is already loaded')

    def wrap_common(self, op, o, pre, P, H, Q, cur, ev):
        st = o.st; n = op.arg
        auto = 'autoload' in self.feats
        for e in ev:
            if e[0] == 'open':
                if not auto: self.rep(st, 'C05', 'unexpected-open', 'a wrapper opens a library although auto-loading is off', op)
                if H is not None: self.rep(st, 'C05', 'autoload-while-loaded', 'auto-loading opens a library although one is loaded', op)
                if not self.same_name(e[1], self.defname()): self.rep(st, 'C05', 'autoload-name', 'auto-loading does not open the configured default library', op)
            if e[0] == 'sym' and not auto: self.rep(st, 'C05', 'unexpected-sym', 'a wrapper looks up symbols although auto-loading is off', op)
            if e[0] == 'sym' and 'lazy' in self.feats and e[1] != n: self.rep(st, 'C05', 'lazy-other', 'lazy auto-loading of %s looks up %s' % (n, e[1]), op)
        if 'lazy' in self.feats and Q is not None:
            for m in self.names:
                if m != n and P[m] != Q[m]: self.rep(st, 'C05', 'lazy-other', 'lazy auto-loading of %s changes the pointer of %s' % (n, m), op)

    def check_end(self, op, o, pre, P, H):
        """the process terminates during the call"""
        st = o.st; ev = st.ev
        if op.kind != 'wrap':
            self.rep(st, 'C05', 'exit', 'the call terminates the process', op); return False
        self.obl['wrapper termination'] += 1
        n = op.arg
        if any(e[0] == 'call' for e in ev): self.rep(st, 'C05', 'call-and-exit', 'the wrapper of %s terminates the process after calling a function' % n, op)
        if P[n] is not None: self.rep(st, 'C05', 'exit-loaded', 'the wrapper of %s terminates the process although the symbol is loaded' % n, op)
        if o.kind == 'exit':
            v = o.val[0]
            if v[0] != 'i' or v[1] == 0: self.rep(st, 'C05', 'exit-status', 'the wrapper of %s exits with a status that may be zero' % n, op)
        said = False; where = True
        for e in ev:
            if e[0] in ('print', 'cbcall'):
                txts = [(e[2] or b'') if e[0] == 'print' else b''] + [x for c in e[3] for x in self.flat(c)]
                if any(re.search(rb'(?<![A-Za-z0-9_])' + n.encode() + rb'(?![A-Za-z0-9_])', t) for t in txts):
                    said = True
                    if e[0] == 'print' and e[1] == 'stdout': where = False
        if not said: self.rep(st, 'C05', 'silent', 'the wrapper of %s terminates the process without an error naming the symbol' % n, op)
        elif not where: self.rep(st, 'C05', 'silent', 'the wrapper of %s reports its error on standard output' % n, op)
        if 'autoload' in self.feats:
            sy = [e for e in ev if e[0] == 'sym']; op_ = [e for e in ev if e[0] == 'open']
            if not any((e[0] == 'sym' and not e[3]) or (e[0] == 'open' and e[4] is None) or e[0] == 'sysfail' for e in ev):
                self.rep(st, 'C05', 'gave-up', 'auto-loading of %s gives up although nothing failed' % n, op)
        self.wrap_common(op, o, pre, P, H, None, None, ev)
        return False

    def flat(self, c):
        if c[0] == 'num': return
        for t in walk_tags(_tagof(c)):
            if len(t) > 1 and t[0] in ('lit', 'fmt') and isinstance(t[1], bytes): yield t[1]
