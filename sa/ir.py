"""Loading of irdump JSON modules: functions, blocks, liveness, constant data."""
import json, subprocess, os

class Func:
    __slots__ = ('name', 'd', 'dem', 'decl', 'blocks', 'args', 'file', 'line', 'mod', 'live_in', '_prep', 'succ', 'pred', 'local', 'odr', 'dname', 'phi_dests')
    def __init__(self, mod, name, d):
        self.mod = mod; self.name = name; self.d = d
        self.dem = d['dem']; self.decl = d['decl']; self.args = d['args']
        self.file = d.get('file', ''); self.line = d.get('line', 0)
        self.local = d.get('local', False); self.odr = d.get('odr', False)
        self.dname = d.get('name', '')
        self.blocks = d.get('blocks', [])
        self._prep = False

    def where(self, ins=None):
        f = self.file
        l = self.line
        if ins is not None:
            f = ins.get('file', f); l = ins.get('l', l)
        return f, l

    def succs(self, b):
        t = self.blocks[b]['i'][-1]
        op = t['op']
        if op == 'br':
            return [o[1] for o in t['ops'] if o[0] == 'b']
        if op == 'switch':
            return [t['default']] + [c[1] for c in t['cases']]
        if op == 'invoke':
            return [t['normal'], t['unwind']]
        return [o[1] for o in t.get('ops', []) if o[0] == 'b'] if op in ('indirectbr',) else []

    def prep(self):
        """liveness (per-block live-in sets of SSA ids)"""
        if self._prep: return
        self._prep = True
        n = len(self.blocks)
        self.succ = [self.succs(b) for b in range(n)]
        self.pred = [[] for _ in range(n)]
        for b in range(n):
            for s in self.succ[b]: self.pred[s].append(b)
        use = [set() for _ in range(n)]; defs = [set() for _ in range(n)]
        phiuse = [set() for _ in range(n)]  # values needed at end of block for successors' phis
        for b in range(n):
            for ins in self.blocks[b]['i']:
                if ins['op'] == 'phi':
                    for pb, o in ins['inc']:
                        if o[0] == 'v': phiuse[pb].add(o[1])
                else:
                    for o in operands(ins):
                        if o[0] == 'v' and o[1] not in defs[b]: use[b].add(o[1])
                defs[b].add(ins['id'])
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set(phiuse[b])
                for s in self.succ[b]:
                    out |= live[s]
                new = use[b] | (out - defs[b])
                if new != live[b]:
                    live[b] = new; ch = True
        self.live_in = live

def operands(ins):
    for o in ins.get('ops', ()):
        yield o
    if 'callee' in ins: yield ins['callee']
    if 'base' in ins:
        yield ins['base']
        for s, o in ins['var']: yield o
    if 'cond' in ins: yield ins['cond']

class Module:
    def __init__(self, d):
        self.globals = d['globals']
        self.funcs = {k: Func(self, k, v) for k, v in d['functions'].items()}
        self._const = {}

    def constdata(self, g):
        """flatten a constant initializer: ('bytes', b) or dict off -> scalar operand"""
        if g in self._const: return self._const[g]
        G = self.globals[g]
        r = None
        if 'init' in G:
            flat = {}; by = {}
            def walk(v, off, size=None):
                k = v[0]
                if k == 's': by[off] = bytes.fromhex(v[1])
                elif k == 'z': flat.setdefault('z', []).append(off)
                elif k == 'agg':
                    lay = v[2] if len(v) > 2 else None
                    for n, e in enumerate(v[1]):
                        o = off + (lay[n] if isinstance(lay, list) else n * (lay or 1))
                        walk(e, o)
                else: flat[off] = v
            walk(G['init'], 0)
            r = (flat, by, G['init'][0] == 'z')
        self._const[g] = r
        return r

def load(path):
    with open(path) as f: return Module(json.load(f))
