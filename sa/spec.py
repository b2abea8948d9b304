"""What the documentation says the generator writes: expansion of a template for a list of
declarations, assembly of header and body, attribution of lines by #line directives."""
import os, re
import build

class Decl:
    """one declaration: kind 'f' function, 'o' object; values as they are to appear in the output"""
    def __init__(self, kind, type, sym, args='', names='', typedef=None, names_create=None, args_create=None):
        self.kind = kind; self.type = type; self.sym = sym; self.args = args; self.names = names
        self.typedef = typedef; self.names_create = names_create; self.args_create = args_create
    def at(self, param, pfx):
        d = Decl(self.kind, self.type.replace('@PFX@', pfx.lower()), self.sym, self.args, self.names)
        if param == 'skip': d.names = ''
        if param == 'create' and self.kind == 'f':
            d.names = self.names_create if self.names_create is not None else self.names
            d.args = self.args_create if self.args_create is not None else self.args
        d.typedef = self.typedef.replace('@PFX@', pfx.lower()) if self.typedef else None
        return d

def entries(data):
    """template file -> [(text, first line, lines)]"""
    L = data.split('\n'); out = []; k = 0
    if L and L[-1] == '': L.pop()
    while k < len(L):
        first = k; text = L[k]
        while (text.endswith('@') or text.endswith('@\r')) and k + 1 < len(L):
            k += 1; text = text[:-1] + '\n' + L[k] if text.endswith('@') else text[:-2] + '\r\n' + L[k]
        if text.endswith('@'): text = text[:-1]
        elif text.endswith('@\r'): text = text[:-2] + '\r'
        out.append((text, first + 1, k - first + 1)); k += 1
    return out

FUNC = ('%%return%%', '%%type%%', '%%func_symbol%%', '%%func_symbol_pad%%', '%%args%%', '%%param_names%%')
OBJ = ('%%obj_type%%', '%%obj_symbol%%', '%%obj_symbol_pad%%')
SYM = ('%%sym_type%%', '%%symbol%%')

def repfx(s, pfx):
    if pfx.upper() == 'GDO': return s
    up = re.sub(r'[^A-Z0-9]', '_', pfx.upper()); lo = re.sub(r'[^a-z0-9]', '_', pfx.lower())
    s = re.sub(r'((?:[^a-zA-Z0-9_]|^)_?)GDO_', lambda m: m.group(1) + up + '_', s)
    s = re.sub(r'((?:[^a-zA-Z0-9_]|^)_?)gdo_', lambda m: m.group(1) + lo + '_', s)
    s = re.sub(r'([^a-zA-Z0-9_]|^)gdo([^a-zA-Z0-9_]|$)', lambda m: m.group(1) + lo + m.group(2), s)
    return s

def sub_all(t, kv):
    """simultaneous replacement: text that comes from a declaration is never a placeholder"""
    return re.sub('|'.join(re.escape(k) for k in sorted(kv, key=len, reverse=True)), lambda m: kv[m.group(0)], t)

def expand(ents, decls, param, pfx, keepskip=False):
    """[(text of one output line, template line)]"""
    out = []; skip = False
    F = [d for d in decls if d.kind == 'f']; O = [d for d in decls if d.kind == 'o']
    def emit(text, first):
        for n, l in enumerate(text.split('\n')): out.append((l, first + n))
    for text, first, n in ents:
        if text in ('%PARAM_SKIP_REMOVE_BEGIN%', '%PARAM_SKIP_USE_BEGIN%', '%PARAM_SKIP_END%'):
            skip = {'R': param == 'skip', 'U': param != 'skip', 'E': False}[text[len('%PARAM_SKIP_')]]
            continue
        if skip: continue
        t = repfx(text, pfx)
        kinds = [any(k in t for k in ks) for ks in (FUNC, OBJ, SYM)]
        if sum(kinds) > 1: raise ValueError('line %d mixes placeholder kinds' % first)
        if kinds[0]:
            w = max([len(d.sym) for d in F] or [0])
            for d in F:
                emit(sub_all(t, {'%%return%%': '' if d.type.lower() == 'void' else 'return', '%%type%%': d.type, '%%func_symbol%%': d.sym,
                                 '%%func_symbol_pad%%': d.sym.ljust(w), '%%args%%': d.args, '%%param_names%%': d.names}), first)
        elif kinds[1]:
            w = max([len(d.sym) for d in O] or [0])
            for d in O: emit(sub_all(t, {'%%obj_type%%': d.type, '%%obj_symbol%%': d.sym, '%%obj_symbol_pad%%': d.sym.ljust(w)}), first)
        elif kinds[2]:
            for d in F: emit(sub_all(t, {'%%sym_type%%': d.type + ' (*)(' + d.args + ')', '%%symbol%%': d.sym}), first)
            for d in O: emit(sub_all(t, {'%%sym_type%%': d.type + ' *', '%%symbol%%': d.sym}), first)
        else: emit(t, first)
    return out

def norm(s): return re.sub(r'\s+', '', s)

PARTS = {
    'c': (['common.h', 'c.h'], ['common.c', 'c.c'], ['common.h', 'common.c', 'c.h', 'c.c']),
    'c++': (['common.h', 'cxx.hpp'], ['common.c', 'cxx.cpp'], ['common.h', 'common.c', 'cxx.hpp', 'cxx.cpp']),
    'plugin': (['common.h', 'plugin.h'], ['common.c', 'plugin.c'], ['common.h', 'common.c', 'plugin.h', 'plugin.c']),
    'minimal': (['minimal.h'], [], ['minimal.h']),
    'minimal-c++': (['minimal_cxxeh.hpp'], [], ['minimal_cxxeh.hpp']),
}

def tfile(name):
    with open(os.path.join(build.SRC, 'templates', name), encoding='latin1') as f: return f.read()

class Opt:
    def __init__(self, format='c', separate=False, param='read', prefix='gdo', defines=(), includes=(), library=None, line=False, pragma=True, templates=None, header='gdo.h'):
        self.__dict__.update(locals()); del self.__dict__['self']
    def parts(self):
        h, b, single = PARTS[self.format]
        return (h, b) if self.separate and b else (single, None)

def attribute(lines, selfname):
    """[(text, file or None for the physical file, line)] of the lines that are not #line directives,
    and the directives [(index, file, line)]"""
    out = []; f = None; n = 1
    for k, l in enumerate(lines):
        m = re.match(r'#line (\d+)(?: "(.*)")?$', l)
        if m:
            n = int(m.group(1))
            if m.group(2) is not None: f = m.group(2)
        else:
            out.append((l, f, n, k)); n += 1
    return out
