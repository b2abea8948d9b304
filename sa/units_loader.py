"""Loader configurations that are analysed for C01-C08."""
import os, build
from loader import Loader

H = os.path.join(build.VERIF, 'harness')
LIB = 'libM4RKER%n.so'
NODLI = ['-include', os.path.join(H, 'win32', 'pre.h')]
WIN = ['-D_WIN32', '-I' + os.path.join(H, 'win32')] + NODLI

class Cfg:
    def __init__(self, name, lang, flags=(), feats=('dlmopen',), gen=(), deflib=LIB, gnu=True, std=None, slice=None):
        self.slice = slice
        self.name = name; self.lang = lang; self.flags = list(flags); self.feats = list(feats); self.gen = list(gen)
        self.deflib = deflib; self.gnu = gnu; self.std = std

def configs(tier):
    W = '-DGDO_WRAP_FUNCTIONS'; A = '-DGDO_ENABLE_AUTOLOAD'; Z = '-DGDO_ENABLE_AUTOLOAD_LAZY'; S = '-DGDO_STATIC'
    d = ['dlmopen']
    cs = [Cfg('c-default', 'c'), Cfg('c-wrap', 'c', [W]), Cfg('c-autoload', 'c', [A], d + ['autoload']), Cfg('c-lazy', 'c', [A, Z], d + ['autoload', 'lazy']),
          Cfg('c-static-wrap', 'c', [S, W])]
    for sl in ('main', 'settings'):
        cs += [Cfg('cxx-default/' + sl, 'cxx', slice=sl), Cfg('cxx-wrap/' + sl, 'cxx', [W], slice=sl), Cfg('cxx-autoload/' + sl, 'cxx', [A], d + ['autoload'], slice=sl),
               Cfg('cxx-lazy/' + sl, 'cxx', [A, Z], d + ['autoload', 'lazy'], slice=sl)]
    cs += [Cfg('c-windows', 'c', WIN, ['win']), Cfg('c-windows-convert', 'c', WIN + ['-DGDO_CONVERT_FILENAME', A], ['win', 'autoload']), Cfg('c-windows-dlfcn', 'c', WIN + ['-DGDO_USE_DLOPEN', W], [])]
    cs += [Cfg('c-dladdr-only', 'c', NODLI + [A, Z], ['autoload', 'lazy'])]
    for sl in ('main', 'settings'):
        cs += [Cfg('cxx-dladdr-only/' + sl, 'cxx', NODLI + [W], [], slice=sl)]
        cs += [Cfg('cxx-windows-dlfcn/' + sl, 'cxx', WIN + ['-DGDO_USE_DLOPEN'], [], slice=sl)]
    if tier == 'thorough':
        cs += [Cfg('c-static', 'c', [S])]
    return cs

def generate(c):
    import tempfile
    d = tempfile.mkdtemp(dir=build.scratch())
    ext = 'h' if c.lang == 'c' else 'hpp'
    build.gendlopen(['-out=' + os.path.join(d, 'gen.' + ext), '-format=' + ('c' if c.lang == 'c' else 'c++'), '-no-date'] + c.gen + [os.path.join(H, 'protos.txt')])
    return d

def analyse(c):
    d = generate(c)
    fl = ['-I' + d, '-DGDO_DISABLE_ALIASING'] + (['-D_GNU_SOURCE'] if c.gnu else []) + c.flags
    if c.deflib: fl.append('-DGDO_DEFAULT_LIB="%s"' % c.deflib)
    if c.lang == 'cxx': fl.append('-std=' + (c.std or 'c++17'))
    m = build.to_ir(os.path.join(H, 'h_c.c' if c.lang == 'c' else 'h_cxx.cpp'), fl)
    L = Loader(m, c.lang, c.name, c.feats, deflib=c.deflib.encode() if c.deflib else None, slice=c.slice)
    L.run()
    if L.E.unmodelled: raise build.BuildError('functions without a model: %s' % sorted(L.E.unmodelled))
    vs = []
    for v in L.E.viol.values():
        fn, fi, ln = v.where
        vs.append({'prop': v.prop, 'rule': v.rule, 'function': fn, 'file': fi.replace(d, '<generated>'), 'line': ln, 'message': v.msg, 'trace': [str(t) for t in v.trace]})
    obl = {'obligation: ' + k: v for k, v in L.obl.items()}
    counts = {'abstract_states': L.nstates, 'calls_interpreted': L.nops, 'outcomes_checked': L.noutcomes, 'instructions_interpreted': L.E.nsteps,
              'call_sites': len(L.E.sites)}
    counts.update(obl)
    fns = [m.funcs[f].dem for f in L.E.funcs_seen if f in m.funcs and not f.startswith('h_')]
    return {'violations': vs, 'counts': counts, 'functions': fns}

def jobs(tier):
    build.irdump(); build.generator()
    return [(c.name, analyse, (c,)) for c in configs(tier)]
