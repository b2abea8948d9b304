"""Scenarios of the whole generator program for gx.Engine: base state, main() with abstract
arguments, files and stdin, and the view of what a path wrote."""
import json, time
import build, gx, gxm, gxm2
from gx import Engine, State, Region, Undecided

_js = None
def js():
    global _js
    if _js is None:
        with open(build.program()) as f: _js = json.load(f)
    return _js

def cell(st, name, mask):
    st.masks[name] = mask
    return ('c', name, gx.IDT)

class Program:
    def __init__(self):
        self.E = Engine(js(), gxm.lookup)
        gxm.setup(self.E); gxm2.setup(self.E)
        self.base = None

    def boot(self):
        """run the constructors of globals once"""
        E = self.E
        st = State()
        g = E.G.get('llvm.global_ctors')
        ct = sorted(((e[1][0][1], e[1][1][1]) for e in g['init'][1]), key=lambda x: x[0]) if g else []
        for _, f in ct:
            outs = E.call(f, [], st)
            if len(outs) != 1 or outs[0].kind != 'ret':
                raise Undecided('constructor of globals: %s %s' % (outs[0].kind, outs[0].val))
            st = outs[0].st
        self.base = st
        return st

    def state(self):
        if self.base is None: self.boot()
        return self.base.fork()

    def argv(self, st, args):
        """args: list of str/bytes/cell lists"""
        ps = []
        for a in ['gendlopen'] + list(args):
            c = gxm.lit(a) if not isinstance(a, list) else a
            p = st.alloc(len(c) + 1, 'ext', name='argv')
            self.E.write_bytes(st, p, list(c) + [0])
            ps.append(p)
        v = st.alloc(8 * (len(ps) + 1), 'ext', 0, 'argv')
        for k, p in enumerate(ps): self.E.store(st, ('p', v[1], 8 * k), 8, p)
        self.E.store(st, ('p', v[1], 8 * len(ps)), 8, 0)
        return len(ps), v

    def run(self, args, files=None, stdin=b'', faults=(), fsopts=('absent',), prep=None, maxpaths=4000, maxsteps=None):
        st = self.state()
        st.X['files'] = files or {}
        st.X['stdin'] = stdin
        st.X['faults'] = frozenset(faults)
        st.X['fsopts'] = tuple(fsopts)
        if prep: args = prep(st) or args
        n, v = self.argv(st, args)
        return [Result(self, o) for o in self.E.call('main', [n, v], st, maxpaths=maxpaths, maxsteps=maxsteps)]

class Result:
    def __init__(self, prog, o):
        self.o = o; self.st = o.st; self.kind = o.kind
        X = o.st.X
        self.code = None
        v = o.val
        if o.kind in ('ret', 'exit'): self.code = v if type(v) is int else v
        def out(n):
            s = X.get(('S', '@_ZSt4' + n, 0))
            return gxm.flat(s.data) if s else []
        self.stdout = out('cout'); self.stderr = out('cerr') + out('clog')
        self.coutst = X.get(('S', '@_ZSt4cout', 0))
        self.files = {k[1]: gxm.flat(v) for k, v in X.items() if k[0] == 'F'}
        self.events = X.get('ev', ())
    def __repr__(self):
        return '<%s %s out=%r err=%r files=%s>' % (self.kind, self.code if self.code is not None else self.o.val, gxm.vis(self.stdout)[:200], gxm.vis(self.stderr)[:300], {gxm.vis(k): len(v) for k, v in self.files.items()})
