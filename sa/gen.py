"""Scenario runner for the generator properties: interprets main() abstractly and checks the
obligations that hold for every run (C12-C15, C19); scenario units add their own oracles."""
import re
import prog, gx, gxm, build
from gx import bits_of, maskof, FULL, IDT

ID = maskof('bghjkqwz')          # identifier letters that begin no keyword
ANY = FULL & ~1                  # every byte of an argument string
LOWER = maskof('abcdefghijklmnopqrstuvwxyz'); UPPER = maskof('ABCDEFGHIJKLMNOPQRSTUVWXYZ'); DIGIT = maskof('0123456789')
WORD = LOWER | UPPER | DIGIT | maskof('_')
NOTNL = FULL & ~maskof([0, 10])

_prog = None
def program():
    global _prog
    if _prog is None:
        _prog = prog.Program(); _prog.boot()
    return _prog

class Cells:
    """named character cells with masks"""
    def __init__(self): self.masks = {}
    def __call__(self, name, n=1, mask=ID):
        out = []
        for k in range(n):
            nm = '%s.%d' % (name, k); self.masks[nm] = mask
            out.append(('c', nm, IDT))
        return out

def L(*parts):
    """cell list from strings and cell lists"""
    out = []
    for p in parts:
        if isinstance(p, str): out += list(p.encode('latin1'))
        elif isinstance(p, bytes): out += list(p)
        elif isinstance(p, tuple): out.append(p)
        else: out += p
    return out

class Unit:
    """collects what one job did"""
    def __init__(self, name):
        self.name = name; self.P = program(); self.E = self.P.E
        self.viol = []; self.n = {}; self.undecided = []
        self.E.viol = {}; self.E.seen = set()
        self.steps0 = self.E.nsteps

    def count(self, k, n=1): self.n[k] = self.n.get(k, 0) + n

    def bad(self, prop, rule, where, msg, res=None, scn=''):
        fn, fi, ln = where or ('main', 'src/main.cpp', 0)
        tr = []
        if scn: tr.append('scenario: ' + scn)
        if res is not None: tr += res.st.trace()[-30:]
        self.viol.append({'prop': prop, 'rule': rule, 'function': fn, 'file': rel(fi), 'line': ln, 'message': msg, 'trace': tr})

    # ------------------------------------------------------------------
    def run(self, args, label=None, cells=None, expect=None, force=False, out=(), nodate=None, **kw):
        """interpret main(args); checks the common obligations; returns the decided results"""
        masks = cells.masks if cells else {}
        def prep(st): st.masks.update(masks)
        label = label or ' '.join(gxm.vis(gxm.lit(a) if not isinstance(a, list) else a) for a in args)
        try:
            rs = self.P.run(args, prep=prep, **kw)
        except gx.Undecided as e:
            self.undecided.append('%s: %s' % (label, e)); self.count('paths_undecided'); self.over = []; return []
        self.count('scenarios')
        good = []; self.over = [r for r in rs if r.kind == 'budget']
        for r in rs:
            self.count('abstract_paths')
            if r.kind in ('undecided', 'budget'):
                self.undecided.append('%s: %s %s' % (label, r.kind, r.o.val)); self.count('paths_undecided'); continue
            self.common(r, label, expect, force, out, nodate)
            good.append(r)
        return good

    def common(self, r, label, expect, force, out, nodate):
        st = r.st; ev = r.events
        loc = site_last(r)
        # ---- C13
        self.count('obligation: failure reporting')
        if r.kind in ('uncaught', 'abort', 'recursion'):
            what = {'uncaught': 'an exception is not handled', 'abort': 'the program is aborted', 'recursion': 'unbounded recursion'}[r.kind]
            v = r.o.val
            self.bad('C13', 'unhandled', self.E.where(st) if st.frames else loc, '%s (%s)' % (what, v[0] if isinstance(v, tuple) else v), r, label); return
        if r.kind == 'fault':
            self.bad('C13', 'crash', self.E.where(st) if st.frames else loc, 'the program does not survive this run', r, label); return
        code = r.code
        if type(code) is not int:
            self.bad('C13', 'exit-code', loc, 'the exit status is not determined', r, label); return
        faults = [e for e in ev if e[0] == 'fault']
        if code & 0xff:
            if not r.stderr: self.bad('C13', 'silent-failure', loc, 'the program fails without a message on standard error', r, label)
        else:
            if faults: self.bad('C13', 'failure-as-success', loc, 'exit status 0 although %s failed' % ', '.join(sorted({e[1] for e in faults})), r, label)
            if any(e[1] == 'write' for e in faults): self.bad('C14', 'unchecked-output', loc, 'exit status 0 although output could not be written', r, label)
            if expect == 'fail': self.bad('C13', 'failure-as-success', loc, 'exit status 0 although the run cannot do what was asked', r, label)
        if expect == 'ok' and code & 0xff and not faults:
            self.bad('C13', 'success-as-failure', loc, 'a valid run fails: ' + gxm.vis(r.stderr)[:200], r, label)
        # ---- C14
        if code & 0xff == 0:
            self.count('obligation: output completely written')
            for k, s in st.X.items():
                if k[0] == 'S' and s.kind in ('file', 'cout') and s.data is not None:
                    if s.fail or s.state != 'C':
                        self.bad('C14', 'unchecked-output', data_site(s.data), 'exit status 0 but %s' % ('a write to %s failed' % pathname(s) if s.fail else
                            'output written to %s was not flushed and checked for errors' % pathname(s)), r, label)
            for e in ev:
                if e[0] == 'lost': self.bad('C14', 'lost-output', loc, 'output to %s is dropped without a check for errors' % (gxm.vis(e[1]) if e[1] else 'a stream'), r, label)
        # ---- C12
        outs = [tuple(gxm.lit(o) if isinstance(o, (str, bytes)) else o) for o in out or ()]
        for e in ev if out is not None else ():
            if e[0] == 'openw':
                self.count('obligation: no overwrite')
                if e[1] not in outs: self.bad('C12', 'unexpected-file', loc, 'the file %s is opened for writing' % gxm.vis(e[1]), r, label)
                elif e[3] and e[2] != 'absent':
                    self.bad('C12', 'overwrite', loc, '%s is opened for writing although it %s' % (gxm.vis(e[1]),
                        'was not checked whether it exists' if e[2] == 'unchecked' else 'exists (%s)' % e[2]), r, label)
            elif e[0] == 'remove':
                self.count('obligation: removal')
                if e[1] not in outs: self.bad('C12', 'unexpected-removal', loc, 'the file %s is removed' % gxm.vis(e[1]), r, label)
                elif not force and e[2] != 'absent': self.bad('C12', 'removal', loc, 'the existing file %s is removed without being asked to' % gxm.vis(e[1]), r, label)
        # ---- C15
        if nodate is not None:
            self.count('obligation: reproducible output')
            allout = [('standard output', r.stdout, r.coutst.data if r.coutst else None)] + [(gxm.vis(k), v, r.st.X[('F', k)]) for k, v in r.files.items()]
            for nm, data, cons in allout:
                ls = lines(data)
                for n, l in enumerate(ls):
                    nd = [c for c in l if type(c) is tuple and c[0] == 'u']
                    if not nd: continue
                    if nodate: self.bad('C15', 'nondeterministic', site_of(cons, sum(len(x) + 1 for x in ls[:n])), 'line %d of %s depends on %s' % (n + 1, nm, str(nd[0][1]).replace('nd:', '')), r, label)
                    elif not (n < 3 and nd[0][1] in ('nd:time', 'nd:tm')): self.bad('C15', 'nondeterministic', site_of(cons, sum(len(x) + 1 for x in ls[:n])), 'line %d of %s, which is not the date line, depends on %s' % (n + 1, nm, nd[0][1]), r, label)
            nb = [e for e in ev if e[0] == 'ndbranch']
            if nb and nodate: self.bad('C15', 'nondeterministic-branch', nb[0][2], 'a decision depends on %s' % (nb[0][1],), r, label)

    def result(self):
        for v in self.E.viol.values():
            fn, fi, ln = v.where
            self.viol.append({'prop': 'C19', 'rule': v.rule, 'function': fn, 'file': rel(fi), 'line': ln, 'message': v.msg, 'trace': [str(t) for t in v.trace]})
        self.n['instructions_interpreted'] = self.E.nsteps - self.steps0
        fns = [self.E.fns[f].dem.split('(')[0] for f in self.E.seen if not self.E.fns[f].system]
        self.n['program_functions_entered'] = len(set(fns))
        return {'violations': self.viol, 'counts': self.n, 'functions': sorted(set(fns)), 'undecided': self.undecided[:50]}

def rel(f): return f.replace(build.REPO + '/', '')
def pathname(s): return gxm.vis(s.path) if s.path else 'standard output'
def lines(cells):
    out = [[]]
    for c in cells:
        if c == 10: out.append([])
        else: out[-1].append(c)
    return out
def data_site(cons): return cons[2] if cons else None
def site_of(cons, pos):
    w = None
    for o, s in gxm.sites(cons):
        if o <= pos: w = s
        else: break
    return w
def site_last(r):
    s = r.st.X.get(('S', '@_ZSt4cerr', 0))
    if s and s.data: return s.data[2]
    if r.coutst and r.coutst.data: return r.coutst.data[2]
    for k, v in r.st.X.items():
        if k[0] == 'F' and v: return v[2]
    return ('main', build.SRC + '/main.cpp', 0)
