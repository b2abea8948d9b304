"""C11: typestate analysis of the minimal loaders."""
import os, collections, tempfile
import build
from engine import Region, Budget, _tagof
from loader import Loader, CUR, walk_tags
from units_loader import WIN

H = os.path.join(build.VERIF, 'harness')
Op = collections.namedtuple('Op', 'label fn kind arg')

class MinLoader(Loader):
    def initial(self):
        from engine import State
        s = State(); s.misc['dlerr'] = 'any'
        states = [s]
        for name in sorted(self.mod.funcs):
            f = self.mod.funcs[name]
            if name.startswith('_GLOBAL__sub_I') and not f.decl:
                states = [o.st for st in states for o in self.E.run(name, [], st) if o.kind == 'ret']
        for st in states: st.frames = []; st.ev = ()
        return states
    def args_for(self, extra): return list(extra)

    def run(self):
        ops = [Op('load(%s)' % k, 'h_load', 'load', k) for k in ('null', 'empty', 'name')] + [Op('free', 'h_free', 'free', None)]
        work = self.initial(); seen = set()
        while work:
            pre = self.normalise(work.pop(0))
            k = pre.key(self.E.live)
            if k in seen: continue
            seen.add(k); self.nstates += 1
            if self.nstates > 500: raise Budget('loader states')
            P = self.ptrs(pre); hs = self.hval(pre)
            self.sdesc = 'handle=%s,symbols={%s}' % ('open' if pre.tok.get(CUR) == 'open' else 'null', ','.join(n for n in self.names if P[n]))
            for op in ops:
                self.nops += 1
                st = pre.copy(); st.ev = (); st.path = None; st.exc = None
                args = []
                if op.kind == 'load': args = [self.name(st, op.arg)]
                for o in self.E.run(op.fn, args, st):
                    self.noutcomes += 1; o.st.frames = []
                    self.one(op, o, pre, P, work)
        return self

    def name(self, s, k):
        if k == 'null': return ('i', 0)
        r = Region(None, 'opq', 'arg', tag=('arg', 'fname'))
        r.strs[0] = ('lit', b'') if k == 'empty' else ('c', 'fname', ('arg', 'fname'))
        if k == 'name': s.set_empt(r.strs[0], 'N')
        s.mem[('arg', 'fname')] = r
        return ('p', ('arg', 'fname'), 0)

    def hval(self, st): return {o.st.res(o.val) for o in self.pure('h_handle', st)}

    def one(self, op, o, pre, P, work):
        st = o.st; ev = st.ev; B = lambda rule, msg: self.rep(st, 'C11', rule, msg, op)
        self.obl['outcome'] += 1
        H = CUR if pre.tok.get(CUR) == 'open' else None
        if o.kind not in ('ret', 'throw'): B('exit', 'the call terminates the process'); return
        msg = None; failed = False
        if op.kind == 'load':
            if self.lang == 'c':
                v = st.res(o.val)
                if v != ('i', 0):
                    failed = True
                    if v[0] == 's': B('unclear', 'the result is neither null nor a message'); return
                    msg = self._content(st, v)
            else:
                failed = o.kind == 'throw'
                if failed: msg = st.misc.get('thrown', (None, None))[1]
        elif o.kind == 'throw': B('throw', 'freeing throws an exception'); return
        exc = st.misc.pop('thrown', None); st.exc = None
        Q = self.ptrs(st)
        rec = self.handle(st)
        openh = [t for t, v in st.tok.items() if t[0] == 'H' and v == 'open']
        opens = [e for e in ev if e[0] == 'open']; closes = [e for e in ev if e[0] == 'close']; syms = [e for e in ev if e[0] == 'sym']
        good = [e for e in opens if e[4] is not None]
        for t in openh:
            if t not in rec: B('handle-lost', 'an open library handle is no longer recorded by the loader')
        for t in rec:
            if st.tok.get(t) != 'open': B('stale-handle', 'the loader still records a library handle that was closed')
        if len(closes) != len(set(e[1] for e in closes)): B('double-close', 'the same handle is closed twice')
        cur = next((h for h in rec if st.tok.get(h) == 'open'), None)
        for n, q in Q.items():
            self.obl['pointer truth'] += 1
            if q is None: continue
            if not (isinstance(q, tuple) and q[0] == 'S'): B('bad-pointer', 'pointer of %s holds a value that no symbol lookup returned' % n)
            elif q[1] != n: B('wrong-symbol', 'pointer of %s holds the address of %s' % (n, q[1]))
            elif q[2] != cur: B('stale-pointer', 'pointer of %s still refers to a library that is not the open one' % n)
        if op.kind == 'free' or (failed and op.arg == 'name'):
            if cur is not None or any(v != ('i', 0) for v in self.hval(st)): B('handle-kept', 'the handle is not null after %s' % ('freeing' if op.kind == 'free' else 'a failed load'))
            for n in self.names:
                if Q[n] is not None: B('pointer-kept', 'pointer of %s is not null after %s' % (n, 'freeing' if op.kind == 'free' else 'a failed load'))
        if op.kind == 'free':
            if H is not None and [e[1] for e in closes] != [H]: B('not-closed', 'freeing does not close the open library exactly once')
            if H is None and closes: B('close-null', 'freeing closes something although nothing is loaded')
            if opens or syms: B('unexpected', 'freeing opens a library or looks up symbols')
        elif op.arg != 'name':
            self.obl['rejected name'] += 1
            if not failed: B('name-accepted', 'a %s name is accepted' % op.arg)
            if opens or syms: B('name-opened', 'a %s name reaches the system loader' % op.arg)
            if closes and cur is None and False: pass
        else:
            self.obl['load outcome'] += 1
            if len(opens) != 1: B('open-count', 'loading calls the system load function %d times' % len(opens))
            for e in opens:
                if not self.same_name(e[1], ('c', 'fname', None)): B('wrong-file', 'the file name of the caller is not passed on')
            if H is not None and H not in [e[1] for e in closes]: B('leak', 'loading again does not close the library of the earlier load')
            bad = [e for e in syms if not e[3]]
            if not failed:
                for n in self.names:
                    if Q[n] is None: B('partial-success', 'success is reported although the pointer of %s is null' % n)
                if not good or cur != good[-1][4]: B('no-library', 'success is reported although no library was opened')
            elif good and not bad: B('gave-up', 'failure is reported although nothing failed')
        if failed:
            self.obl['failure message'] += 1
            if msg is None or (msg[0] == 'lit' and not msg[1]) : B('no-message', 'the failure carries no message')
            if self.lang == 'cxx' and op.arg == 'name' and exc is not None:
                t = str(exc[0])
                if (('SymbolError' in t) != bool(good)): B('exception-type', 'the exception thrown is not the documented one for this failure')
            if self.lang == 'cxx' and op.arg != 'name' and exc is not None and 'LibraryError' not in str(exc[0]): B('exception-type', 'the exception thrown is not the documented one for this failure')
        for t, v in st.tok.items():
            if t[0] == 'heap' and v == 'live': B('memory-leak', 'a heap block is never released')
        for kk in [k for k in st.mem if k[0] in ('arg', 'exc')]: del st.mem[kk]
        work.append(st)

def same(c, d): return c == d

def cfgs(tier):
    out = [('min-c', 'c', []), ('min-c-static', 'c', ['-DGDO_STATIC']), ('min-cxx', 'cxx', ['-std=c++17']),
           ('min-c-windows', 'c', WIN), ('min-cxx-windows', 'cxx', WIN + ['-std=c++17'])]
    if tier == 'thorough': out += [('min-cxx11', 'cxx', ['-std=c++11']), ('min-cxx20', 'cxx', ['-std=c++20']), ('min-c-as-cxx', 'c++c', ['-std=c++17'])]
    return out

def analyse(name, lang, flags):
    d = tempfile.mkdtemp(dir=build.scratch())
    cxx = lang == 'cxx'
    build.gendlopen(['-out=' + os.path.join(d, 'gen.hpp' if cxx else 'gen.h'), '-format=' + ('minimal-c++' if cxx else 'minimal'), '-no-date', os.path.join(H, 'protos.txt')])
    if lang == 'c++c':
        src = os.path.join(d, 'h_min_c.cpp')
        open(src, 'w').write('extern "C" {\n#include "%s"\n}\n' % os.path.join(H, 'h_min.c'))
    else: src = os.path.join(H, 'h_min.cpp' if cxx else 'h_min.c')
    m = build.to_ir(src, ['-I' + d, '-DGDO_DISABLE_ALIASING'] + flags)
    L = MinLoader(m, 'cxx' if cxx else 'c', name, ('win',) if '-D_WIN32' in flags else ())
    L.models.single = False
    L.run()
    if L.E.unmodelled: raise build.BuildError('functions without a model: %s' % sorted(L.E.unmodelled))
    vs = []
    for v in L.E.viol.values():
        fn, fi, ln = v.where
        vs.append({'prop': 'C11', 'rule': v.rule, 'function': fn, 'file': fi.replace(d, '<generated>'), 'line': ln, 'message': v.msg, 'trace': [str(t) for t in v.trace]})
    counts = {'abstract_states': L.nstates, 'calls_interpreted': L.nops, 'outcomes_checked': L.noutcomes, 'instructions_interpreted': L.E.nsteps, 'call_sites': len(L.E.sites)}
    counts.update({'obligation: ' + k: v for k, v in L.obl.items()})
    return {'violations': vs, 'counts': counts, 'functions': [m.funcs[f].dem for f in L.E.funcs_seen if f in m.funcs and not f.startswith('h_')]}

def jobs(tier):
    build.irdump(); build.generator()
    return [(c[0], analyse, c) for c in cfgs(tier)]
