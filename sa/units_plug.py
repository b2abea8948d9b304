"""C09: typestate/ownership analysis of the generated plugin loader."""
import os, collections, tempfile, itertools
import build
from engine import Engine, State, Region, Budget
from models import Models
from loader import NAMES
from units_loader import WIN

H = os.path.join(build.VERIF, 'harness')

class Plug:
    def __init__(self, mod, name):
        self.mod = mod; self.cfg = name
        self.models = Models({'null_sym': False, 'ghost_oom': True}); self.models.single = False
        self.E = Engine(mod, self.models)
        self.obl = collections.Counter(); self.nops = 0; self.nout = 0; self.shapes = 0

    def rep(self, st, rule, msg, fn, label):
        f = next((g for n, g in self.mod.funcs.items() if n == fn), None)
        self.E.report(st, 'C09', rule, '%s [list %s, configuration %s]' % (msg, label, self.cfg), (fn, f.file if f else '', f.line if f else 0))

    def call(self, fn, args, st):
        self.nops += 1
        s = st.copy(); s.frames = []; s.path = st.path
        return self.E.run(fn, args, s)

    def val(self, fn, st, args):
        s = st.copy(); s.ev = ()
        n0 = self.nops
        vs = {o.st.res(o.val) for o in self.call(fn, args, s)}
        self.nops = n0
        return vs.pop() if len(vs) == 1 else ('multi', tuple(vs))

    def shape(self, kinds, files=True):
        self.shapes += 1
        label = '{%s}' % ','.join(kinds) if files else 'NULL'
        s = State(); s.misc['dlerr'] = None
        if files:
            r = Region(8 * len(kinds), 'undef', 'arg', tag=('arg', 'files'))
            for i, k in enumerate(kinds):
                if k == 'null': r.fields[8 * i] = (8, ('i', 0)); continue
                q = Region(None, 'opq', 'arg', tag=('arg', 'f%d' % i))
                q.strs[0] = ('lit', b'') if k == 'empty' else ('c', 'f%d' % i, ('arg', 'f%d' % i))
                if k == 'name': s.set_empt(q.strs[0], 'N')
                s.mem[('arg', 'f%d' % i)] = q
                r.fields[8 * i] = (8, ('p', ('arg', 'f%d' % i), 0))
            s.mem[('arg', 'files')] = r
            fp = ('p', ('arg', 'files'), 0)
        else: fp = ('i', 0)
        L = 'gdo_load_plugins'
        for o in self.call('h_load', [fp, ('i', len(kinds))], s):
            self.nout += 1
            st = o.st; st.frames = []
            B = lambda rule, msg: self.rep(st, rule, msg, L, label)
            if o.kind != 'ret': B('exit', 'the call does not return'); continue
            self.obl['load outcome'] += 1
            v = st.res(o.val)
            openh = [t for t, x in st.tok.items() if t[0] == 'H' and x == 'open']
            heap = [t for t, x in st.tok.items() if t[0] == 'heap' and x == 'live']
            if any(e[0] == 'close' and not e[2] for e in st.ev): pass
            if v == ('i', 0):
                if files and kinds and not st.misc.get('oom'): B('null-result', 'NULL is returned although no allocation failed')
                if heap: B('leak', 'NULL is returned and %d heap block(s) are never released' % len(heap))
                if openh: B('handle-leak', 'NULL is returned and %d opened librar(ies) are never closed' % len(openh))
                continue
            if not files or not kinds: B('non-null', 'a list is returned although there is nothing to load'); continue
            if v[0] != 'p': B('unclear', 'the result is not a block that was allocated'); continue
            if self.val('h_num', st, [v]) != ('i', len(kinds)): B('count', 'the list does not record one entry per given name'); continue
            owned = set(); heaps = {v[1]}
            for i, k in enumerate(kinds):
                self.obl['entry'] += 1
                iv = ('i', i)
                fnm = self.val('h_filename', st, [v, iv]); h = self.val('h_handle', st, [v, iv])
                if k != 'name':
                    if fnm != ('i', 0) and self.content(st, fnm) != ('lit', b''): B('filename', 'entry %d has a file name although it was given a %s one' % (i, k))
                    if fnm[0] == 'p': heaps.add(fnm[1])
                    if h != ('i', 0): B('handle', 'entry %d has a handle although it was given a %s name' % (i, k))
                else:
                    c = self.content(st, fnm) if fnm[0] == 'p' else None
                    if c is None or c[0] != 'c' or c[1] != 'f%d' % i: B('filename', 'entry %d does not record a copy of its file name' % i)
                    elif fnm[1][0] != 'heap' or st.tok.get(fnm[1]) != 'live': B('filename', 'entry %d refers to the file name of the caller instead of a copy' % i)
                    if fnm[0] == 'p': heaps.add(fnm[1])
                    opens = [e for e in st.ev if e[0] == 'open' and e[1][0] == 'c' and e[1][1] == 'f%d' % i]
                    want = [('p', e[4], 0) if e[4] else ('i', 0) for e in opens]
                    if len(opens) != 1: B('open-count', 'the file of entry %d is opened %d times' % (i, len(opens)))
                    elif h != want[0]: B('handle', 'entry %d does not record the handle opened for its own name' % i)
                    if h[0] == 'p':
                        if h[1] in owned: B('handle', 'two entries share one handle')
                        owned.add(h[1])
                        if st.tok.get(h[1]) != 'open': B('handle', 'entry %d records a handle that is not open' % i)
                for n in NAMES:
                    self.obl['pointer truth'] += 1
                    p = self.val('h_ptr_' + n, st, [v, iv])
                    if h == ('i', 0):
                        if p != ('i', 0): B('pointer', 'pointer of %s in entry %d is not null although its library is not open' % (n, i))
                        continue
                    looked = [e for e in st.ev if e[0] == 'sym' and e[1] == n and ('p', e[2], 0) == h]
                    if p == ('i', 0):
                        if not looked: B('not-looked-up', '%s is never looked up in the library of entry %d' % (n, i))
                        elif any(e[3] for e in looked): B('pointer', 'the address of %s in entry %d is lost' % (n, i))
                    elif not (p[0] == 'p' and p[1][0] == 'S'): B('pointer', 'pointer of %s in entry %d holds a value that no lookup returned' % (n, i))
                    elif p[1][1] != n or ('p', p[1][2], 0) != h: B('pointer', 'pointer of %s in entry %d was looked up as %s in %s library' % (n, i, p[1][1], 'its own' if ('p', p[1][2], 0) == h else 'another'))
            if set(openh) - owned: B('handle-leak', 'an opened library is not recorded in the list')
            self.release(st, v, kinds, label, owned)
        if files and kinds == ('name',): self.rel_null()

    def content(self, st, v):
        f = self.mod.funcs['h_load']; f.prep()
        s = st.copy()
        self.E.push(s, f, [], None)
        try: return self.E.content(s, v, None, 'file name')
        finally: s.frames.pop()

    def release(self, st, v, kinds, label, owned):
        s = st.copy(); s.ev = (); s.path = st.path
        for o in self.call('h_release', [v], s):
            self.nout += 1; self.obl['release outcome'] += 1
            st = o.st; st.frames = []
            B = lambda rule, msg: self.rep(st, rule, msg, 'gdo_release_plugins', label)
            if o.kind != 'ret': B('exit', 'the call does not return'); continue
            closes = [e[1] for e in st.ev if e[0] == 'close']
            for h in owned:
                if closes.count(h) != 1: B('close-count', 'a library of the list is closed %d times' % closes.count(h))
            if set(closes) - owned: B('close-other', 'a library that does not belong to the list is closed')
            live = [t for t, x in st.tok.items() if t[0] == 'heap' and x == 'live']
            if live: B('leak', '%d heap block(s) of the list are never released' % len(live))
            if any(e[0] in ('open', 'sym') for e in st.ev): B('unexpected', 'releasing loads something')

    def rel_null(self):
        s = State()
        for o in self.call('h_release', [('i', 0)], s):
            self.obl['release of NULL'] += 1
            if o.kind != 'ret' or o.st.ev: self.rep(o.st, 'release-null', 'releasing NULL is not harmless', 'gdo_release_plugins', 'NULL')

def shapes(tier):
    K = ('null', 'empty', 'name')
    out = [((), True), (('name',), False), ((), False)] + [((k,), True) for k in K] + [(p, True) for p in itertools.product(K, K)]
    out += [(p, True) for p in itertools.product(K, K, K) if p.count('name') < 2]
    if tier == 'thorough': out += [(p, True) for p in itertools.product(K, K, K) if p.count('name') >= 2]
    return out

def analyse(name, flags, shp, lang='c'):
    d = tempfile.mkdtemp(dir=build.scratch())
    build.gendlopen(['-out=' + os.path.join(d, 'gen.h'), '-format=plugin', '-no-date', os.path.join(H, 'protos.txt')])
    src = os.path.join(H, 'h_plug.c')
    if lang == 'c++':
        src = os.path.join(d, 'h_plug.cpp'); open(src, 'w').write('extern "C" {\n#include "%s"\n}\n' % os.path.join(H, 'h_plug.c'))
    m = build.to_ir(src, ['-I' + d, '-DGDO_DISABLE_ALIASING', '-D_GNU_SOURCE'] + flags)
    L = Plug(m, name)
    for k, f in shp: L.shape(k, f)
    if L.E.unmodelled: raise build.BuildError('functions without a model: %s' % sorted(L.E.unmodelled))
    vs = []
    for v in L.E.viol.values():
        fn, fi, ln = v.where
        vs.append({'prop': 'C09', 'rule': v.rule, 'function': fn, 'file': fi.replace(d, '<generated>'), 'line': ln, 'message': v.msg, 'trace': [str(t) for t in v.trace]})
    counts = {'list_shapes': L.shapes, 'calls_interpreted': L.nops, 'outcomes_checked': L.nout, 'instructions_interpreted': L.E.nsteps, 'call_sites': len(L.E.sites)}
    counts.update({'obligation: ' + k: v for k, v in L.obl.items()})
    return {'violations': vs, 'counts': counts, 'functions': [m.funcs[f].dem for f in L.E.funcs_seen if f in m.funcs and not f.startswith('h_')]}

def jobs(tier):
    build.irdump(); build.generator()
    sh = shapes(tier)
    heavy = [s for s in sh if s[0].count('name') >= 2]; light = [s for s in sh if s not in heavy]
    out = [('plugin/light', analyse, ('plugin', [], light)), ('plugin-static/light', analyse, ('plugin-static', ['-DGDO_STATIC'], light)),
           ('plugin-c++/light', analyse, ('plugin-c++', ['-std=c++17'], light, 'c++')),
           ('plugin-windows/light', analyse, ('plugin-windows', WIN, light))]
    for n, s in enumerate(heavy): out.append(('plugin/%s' % ','.join(s[0]), analyse, ('plugin', [], [s])))
    return out
