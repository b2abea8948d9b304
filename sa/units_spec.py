"""Scenario units of the generator program whose output is compared with the documented meaning of
templates, options and declarations (C16-C18, C21, C22)."""
import functools, itertools, re
import gen, gx, gxm, spec, build
from gen import Unit, Cells, L, ID, ANY
from spec import Decl, Opt, norm
from units_gen import assigns, inst, AST, TPL

# ---------------------------------------------------------------- declarations
NAMED = b'''/* int not_this(void); */
#define NOR_THIS int nor_this(void);
int foo(char *a, int b);
void bar(const char *fmt, ...);
extern int obj;
char *baz(void);
struct ignored { int a; char *b; };
char *str;
char *names[4];
typedef int (*ignored_t)(int);
int (*fp)(int);
struct zz *mk(struct zz *z, void (*cb)(int)), ;
'''.replace(b', ;', b';')
def named():
    return [Decl('f', 'int', 'foo', 'char *a, int b', 'a, b'), Decl('f', 'void', 'bar', 'const char *fmt, ...', 'fmt'), Decl('o', 'int', 'obj'), Decl('f', 'char *', 'baz', 'void', ''),
            Decl('o', 'char *', 'str'), Decl('o', '@PFX@_names__t', 'names', typedef='char *@PFX@_names__t[4]'), Decl('o', '@PFX@_fp__t', 'fp', typedef='int (*@PFX@_fp__t)(int)'),
            Decl('f', 'struct zz *', 'mk', 'struct zz *z, void (*cb)(int)', 'z, cb')]
NAMELESS = b'''int foo(char *, int);
VOID bar(const char *, ...);
extern int obj;
char *baz(void), ;
struct zz *mk(struct zz *, void (*)(int), char [3]);
unsigned long q(Void);
'''.replace(b', ;', b';')
def nameless():
    return [Decl('f', 'int', 'foo', 'char *, int', '', None, 'a1, a2', 'char *a1, int a2'), Decl('f', 'VOID', 'bar', 'const char *, ...', '', None, 'a1', 'const char *a1, ...'), Decl('o', 'int', 'obj'),
            Decl('f', 'char *', 'baz', 'void', ''), Decl('f', 'struct zz *', 'mk', 'struct zz *, void (*)(int), char [3]', '', None, 'a1, a2, a3', 'struct zz *a1, void (*a2)(int), char a3[3]'),
            Decl('f', 'unsigned long', 'q', 'Void', '')]
FUNCS = b'void ab_x(int n);\nint ab_yy(void);\n'
def funcs(): return [Decl('f', 'void', 'ab_x', 'int n', 'n'), Decl('f', 'int', 'ab_yy', 'void', '')]
OBJS = b'int ab_x;\nchar *const ab_yyy;\n'
def objs(): return [Decl('o', 'int', 'ab_x'), Decl('o', 'char *const', 'ab_yyy')]
ONE = b'int f(int x);\n'
def one(): return [Decl('f', 'int', 'f', 'int x', 'x')]
ASTD = [Decl('o', 'h_cb_t', 'h_cb'), Decl('f', 'h *', 'h_init', '', ''), Decl('f', 'h *', 'h_argv', 'int a1, char **a2', 'a1, a2'), Decl('o', 'int', 'h_n')]
SETS = {'named': (NAMED, named), 'nameless': (NAMELESS, nameless), 'funcs': (FUNCS, funcs), 'objs': (OBJS, objs), 'one': (ONE, one), 'ast': (AST, lambda: ASTD)}

# ---------------------------------------------------------------- comparison of a whole output
def text(cells): return ''.join(chr(c) if type(c) is int else '?' for c in cells)

class Cmp:
    def __init__(self, u, r, label): self.u = u; self.r = r; self.label = label
    def bad(self, prop, rule, cons, off, msg):
        self.u.bad(prop, rule, gen.site_of(cons, off) if cons else None, msg, self.r, self.label)

def check_file(c, nm, cells, cons, blocks, gapspecs, opt, selfname, tplname):
    """blocks: [(template name, [(text, line)])]; gapspecs: one per gap: list of required lines (in order) or None"""
    t = text(cells); lines = t.split('\n')
    offs = []; o = 0
    for l in lines: offs.append(o); o += len(l) + 1
    at = spec.attribute(lines, selfname)
    seq = [norm(a[0]) for a in at]
    c.u.count('obligation: output lines', len(lines))
    for k, l in enumerate(lines):
        m = re.search(r'%%\w+%%|%PARAM_SKIP_\w+%', l)
        if m:
            c.bad('C18', 'leftover', cons, offs[k], '%s is left in line %d of %s' % (m.group(0), k + 1, nm)); return
        if not opt.line and re.match(r'#line \d', l) :
            c.bad('C17', 'unwanted-line-directive', cons, offs[k], 'a #line directive is written although -line was not given (line %d of %s)' % (k + 1, nm)); return
    pos = 0; gaps = []
    for name, blk in blocks:
        B = [norm(x[0]) for x in blk]
        c.u.count('obligation: template expansions')
        hit = None
        for i in range(pos, len(seq) - len(B) + 1):
            if seq[i:i + len(B)] == B: hit = i; break
        if hit is None:
            # best alignment
            best = (-1, pos)
            for i in range(pos, len(seq)):
                n = 0
                while n < len(B) and i + n < len(seq) and seq[i + n] == B[n]: n += 1
                if n > best[0]: best = (n, i)
            n, i = best
            if n < min(3, len(B)):
                c.bad('C18', 'template-missing', cons, offs[at[min(pos, len(at) - 1)][3]], 'the expansion of %s does not appear in %s' % (name, nm)); return
            got = at[i + n][0] if i + n < len(at) else '<end of output>'
            k = at[min(i + n, len(at) - 1)][3]
            c.bad('C18', 'substitution', cons, offs[k], 'line %d of %s, which stands for line %d of %s, is `%s\'; it should be `%s\'' % (k + 1, nm, blk[n][1], name, got[:120], blk[n][0][:120])); return
        gaps.append((pos, hit))
        if opt.line:
            for n, (x, ln) in enumerate(blk):
                a = at[hit + n]
                c.u.count('obligation: line attribution')
                if name == 'license.h': ok = a[1] in (None, selfname) and a[2] == a[3] + 1
                else: ok = a[1] is not None and (a[1] == name or a[1].endswith('/' + name)) and a[2] == ln
                if not ok:
                    c.bad('C22', 'line-directive', cons, offs[a[3]], 'line %d of %s comes from line %d of %s but the #line directives attribute it to line %d of %s' % (a[3] + 1, nm, ln, name, a[2], a[1] or 'the file itself')); return
        pos = hit + len(B)
    gaps.append((pos, len(seq)))
    for n, (a, b) in enumerate(gaps):
        have = [at[k] for k in range(a, b)]
        if opt.line and (n < 3 or n == len(gaps) - 1):
            for x in have:
                if x[0] == '' : continue
                c.u.count('obligation: line attribution')
                if not (x[1] in (None, selfname) and x[2] == x[3] + 1):
                    c.bad('C22', 'line-directive', cons, offs[x[3]], 'line %d of %s is written by the generator itself but attributed to line %d of %s' % (x[3] + 1, nm, x[2], x[1])); return
        want = gapspecs[n] if n < len(gapspecs) else None
        if want is None: continue
        w = list(want); prop_of = {}
        for x in have:
            if not norm(x[0]): continue
            if w and norm(x[0]) == norm(w[0][0]): w.pop(0); continue
            if re.match(r'\s*(#|typedef\b)', x[0]) and not re.match(r'#line \d', x[0]):
                nxt = next((q for q, y in enumerate(w) if norm(y[0]) == norm(x[0])), None)
                if nxt is not None:
                    c.bad(w[0][1], 'setting-lost', cons, offs[x[3]], '`%s\' should appear in %s before `%s\'' % (w[0][0], nm, x[0][:80])); return
                c.bad(w[0][1] if w else 'C21', 'setting-wrong', cons, offs[x[3]], 'line %d of %s is `%s\'%s' % (x[3] + 1, nm, x[0][:120], '; it should be `%s\'' % w[0][0] if w else ', which nothing asked for')); return
            elif n > 0 and not re.match(r'\s*(//|/\*|\}|extern)', x[0]):
                c.bad('C18', 'unexpected-line', cons, offs[x[3]], 'line %d of %s, `%s\', belongs to no template' % (x[3] + 1, nm, x[0][:100])); return
        if w:
            k = at[b - 1][3] if b else 0
            c.bad(w[0][1], 'setting-lost', cons, offs[k], '`%s\' does not appear in %s' % (w[0][0], nm)); return

def cprefix(syms):
    if len(syms) < 2: return ''
    p = syms[0]
    for s in syms[1:]:
        while not s.startswith(p): p = p[:-1]
    return p

def libmacros(lib, up):
    def q(s, wide=False):
        if wide and len(s) >= 3 and s.startswith('L"') and s.endswith('"'): return s
        if len(s) >= 2 and s[0] == '"' and s[-1] == '"': return ('L' if wide else '') + s
        return ('L"' if wide else '"') + s + '"'
    low = lib.lower()
    if low.startswith('nq:') and len(lib) > 3: a = w = lib[3:]
    elif low.startswith('ext:') and len(lib) > 4: a = q(lib[4:]) + ' ' + up + '_LIBEXTA'; w = q(lib[4:], True) + ' ' + up + '_LIBEXTW'
    elif low.startswith('api:') and len(lib) > 4:
        n, x = lib[4:].split(':', 1); a = up + '_LIBNAMEA(' + x + ',' + n + ')'; w = up + '_LIBNAMEW(' + x + ',' + n + ')'
    else: a = q(lib); w = q(lib, True)
    return a, w

def header_gaps(opt, decls, hname, cxx):
    up = re.sub(r'[^A-Z0-9]', '_', opt.prefix.upper())
    g1 = []
    if opt.pragma: g1.append(('#pragma once', 'C17'))
    else:
        gd = '_' + up + '_' + re.sub(r'[^A-Z0-9]', '_', hname.upper()) + '_'
        g1 += [('#ifndef ' + gd, 'C17'), ('#define ' + gd, 'C17')]
    if not cxx: g1 += [('#ifdef __cplusplus', 'C18'), ('extern "C" {', 'C18'), ('#endif', 'C18')]
    g2 = []
    for d in opt.defines:
        n, _, v = d.partition('=')
        g2 += [('#ifndef ' + n.strip(), 'C21'), ('# define ' + n.strip() + ' ' + v, 'C21'), ('#endif', 'C21')]
    sep = opt.separate and spec.PARTS[opt.format][1]
    if sep: g2.append(('#define %s_SEPARATE' % up, 'C17'))
    if opt.library:
        a, w = libmacros(opt.library, up)
        g2 += [('#define %s_HARDCODED_DEFAULT_LIBA %s' % (up, a), 'C21'), ('#define %s_HARDCODED_DEFAULT_LIBW %s' % (up, w), 'C21')]
    F = [d for d in decls if d.kind == 'f']; O = [d for d in decls if d.kind == 'o']
    g2.append(('#define %s_COMMON_PREFIX "%s"' % (up, cprefix([d.sym for d in F + O])), 'C21'))
    for d in F:
        if d.args.endswith('...'): g2.append(('#define %s_HAS_VA_ARGS_%s 1' % (up, d.sym), 'C21'))
    g2 += [('#include <cstddef>', 'C18'), ('#include <cstring>', 'C18')] if cxx else [('#include <stddef.h>', 'C18'), ('#include <string.h>', 'C18')]
    for i in opt.includes:
        g2.append(('#include ' + (i[3:] if i.lower().startswith('nq:') and len(i) > 3 else i if len(i) >= 2 and (i[0] == '<' and i[-1] == '>' or i[0] == '"' and i[-1] == '"') else '"' + i + '"'), 'C21'))
    for d in O:
        if d.typedef: g2.append(('typedef ' + d.typedef + ';', 'C21'))
    g3 = []
    if not cxx: g3 += [('#ifdef __cplusplus', 'C18'), ('} /* extern "C" */', 'C18'), ('#endif', 'C18')]
    if not opt.pragma: g3.append(('#endif //_' + up + '_' + re.sub(r'[^A-Z0-9]', '_', hname.upper()) + '_', 'C17'))
    return g1, g2, g3

def outputs(r):
    """name -> (cells, data)"""
    d = {bytes(k).decode('latin1'): (v, r.st.X[('F', k)]) for k, v in r.files.items()}
    if r.stdout: d['-'] = (r.stdout, r.coutst.data)
    return d

def failed(u, r, label):
    if type(r.code) is int and not [e for e in r.events if e[0] == 'fault']:
        for p, w in (('C17', 'documented options are rejected'), ('C18', 'valid templates are not expanded')): u.bad(p, 'valid-run-fails', gen.site_last(r), '%s: %s' % (w, gxm.vis(r.stderr)[:160]), r, label)

def check_result(u, r, label, opt, decls, out):
    """out: None (standard output) or file name as given"""
    c = Cmp(u, r, label)
    if r.code != 0: failed(u, r, label); return
    cxx = opt.format in ('c++', 'minimal-c++')
    O = outputs(r)
    hparts, bparts = opt.parts()
    if out is None: opt.separate = False; hparts, bparts = opt.parts(); hname = opt.prefix + ('.hpp' if cxx else '.h'); hfile = '-'; want = {'-'}
    elif bparts is None: hfile = out; hname = out.split('/')[-1]; want = {out}
    else:
        b = out.split('/')[-1]
        st = out[:len(out) - len(b)] + (b[:b.rfind('.')] if b.rfind('.') > 0 else b)
        hfile = st + ('.hpp' if cxx else '.h'); bfile = st + ('.cpp' if cxx else '.c'); hname = hfile.split('/')[-1]; want = {hfile, bfile}
    if set(O) != want:
        u.bad('C17', 'wrong-output-file', gen.site_last(r), 'the output was written to %s instead of %s' % (', '.join(sorted(O)) or 'nothing', ', '.join(sorted(want))), r, label); return
    ds = [d.at(opt.param, re.sub(r'[^a-z0-9]', '_', opt.prefix.lower())) for d in decls]
    tf = opt.templates or spec.tfile
    def block(n, raw=False):
        if raw: return (n, [(x, k) for t, k, m in spec.entries(tf(n)) for k, x in ((k + q, y) for q, y in enumerate(spec.repfx(t, opt.prefix).split('\n')))])
        return (n, spec.expand(spec.entries(tf(n)), ds, opt.param, opt.prefix))
    g1, g2, g3 = header_gaps(opt, ds, hname, cxx)
    check_file(c, hfile.replace('-', 'standard output', 1) if hfile == '-' else hfile, *O[hfile], [block('license.h', True), block('filename_macros.h', True)] + [block(n) for n in hparts], [None, g1, g2] + [[]] * (len(hparts) - 1) + [g3], opt, hname, None)
    if bparts is not None:
        up = re.sub(r'[^A-Z0-9]', '_', opt.prefix.upper())
        check_file(c, bfile, *O[bfile], [block('license.h', True)] + [block(n) for n in bparts], [None, [('#define %s_INCLUDED_IN_BODY' % up, 'C18'), ('#include "%s"' % hname, 'C18')]] + [[]] * len(bparts), opt, bfile.split('/')[-1], None)

def u_full(args, opt, set_, out=None, files=None, kw=None):
    u = Unit('full')
    inp, ds = SETS[set_]
    f = {b'in.txt': inp}
    for k, v in (files or {}).items(): f[k] = v
    lab = ' '.join(args)
    if '-no-date' not in args: args = ['-no-date'] + args
    o = []
    if out:
        b = out.split('/')[-1]; st = out[:len(out) - len(b)] + (b[:b.rfind('.')] if b.rfind('.') > 0 else b)
        o = [out, st + '.h', st + '.c', st + '.hpp', st + '.cpp']
    for r in u.run(args + ['in.txt'], label=lab + '  input: ' + set_, expect='ok', files=f, out=o, **(kw or {})):
        check_result(u, r, lab + '  input: ' + set_, Opt(**opt), ds() , out)
    return u.result()

# ---------------------------------------------------------------- custom templates
def u_tpl(tpls, args, set_, param='read', prefix='gdo', line=False, ast=False):
    u = Unit('tpl')
    inp, ds = SETS[set_]
    decls = [d.at(param, re.sub(r'[^a-z0-9]', '_', prefix.lower())) for d in ds()]
    for t in tpls:
        for how in ('file', 'stdin'):
            if how == 'stdin' and t is not tpls[0]: continue
            a = ['-template=-' if how == 'stdin' else '-template=p/t.x'] + args + (['-line'] if line else []) + ['in.txt']
            lab = '%s  template: %r  input: %s' % (' '.join(a), t[:100], set_)
            for r in u.run(a, label=lab, expect='ok', files={b'in.txt': inp, b'p/t.x': t.encode('latin1')}, stdin=t.encode('latin1'), out=()):
                if r.code != 0: failed(u, r, lab); continue
                check_tpl(u, r, lab, t, decls, param, prefix, line, '<STDIN>' if how == 'stdin' else 'p/t.x')
    return u.result()

def check_tpl(u, r, lab, t, decls, param, prefix, line, name):
    c = Cmp(u, r, lab)
    cells, cons = r.stdout, r.coutst.data if r.coutst else None
    lines = text(cells).split('\n')
    if lines and lines[-1] == '': lines.pop()
    offs = []; o = 0
    for l in lines: offs.append(o); o += len(l) + 1
    want = spec.expand(spec.entries(t), decls, param, prefix)
    at = spec.attribute(lines, None)
    got = [norm(a[0]) for a in at]; exp = [norm(x[0]) for x in want]
    while exp and exp[-1] == '': exp.pop()
    while got and got[-1] == '' and len(got) > len(exp): got.pop()
    c.u.count('obligation: template expansions')
    if got != exp:
        n = next((k for k in range(min(len(got), len(exp))) if got[k] != exp[k]), min(len(got), len(exp)))
        k = at[min(n, len(at) - 1)][3] if at else 0
        c.bad('C18', 'substitution', cons, offs[k] if offs else 0, 'output line %d is `%s\'; it should be `%s\' from line %s of the template' % (n + 1, at[n][0][:120] if n < len(at) else '<nothing>', want[n][0][:120] if n < len(want) else '<nothing>', want[n][1] if n < len(want) else '-')); return
    if not line:
        if any(re.match(r'#line \d', l) for l in lines) and '#line' not in t: c.bad('C17', 'unwanted-line-directive', cons, 0, 'a #line directive is written although -line was not given')
        return
    for k, (txt, ln) in enumerate(want[:len(got)]):
        u.count('obligation: line attribution')
        a = at[k]
        if a[1] != name or a[2] != ln:
            c.bad('C22', 'line-directive', cons, offs[a[3]], 'output line %d comes from line %d of %s but the #line directives attribute it to line %d of %s' % (a[3] + 1, ln, name, a[2], a[1] or 'the output itself')); return

TPLS = [
    '// a\n%%type%% %%func_symbol%%(%%args%%);\nb\n%%obj_type%% %%obj_symbol%%;\nc\n%%sym_type%% %%symbol%%\nd\n',
    'x\n%%return%% %%func_symbol_pad%%|%%param_names%%|%%return%%%%return%% ;\n\n\ny @\n%%obj_symbol_pad%%+%%obj_symbol%% @\n%%obj_type%%%%obj_type%%\nz\n',
    '%%symbol%%%%symbol%% @\n(%%sym_type%%) @\n%%symbol%%\nq\n%PARAM_SKIP_USE_BEGIN%\nonly skip\n%%symbol%%\n%PARAM_SKIP_END%\nw\n%PARAM_SKIP_REMOVE_BEGIN%\nnot skip @\n more\n\n%%func_symbol%%\n%PARAM_SKIP_END%\ne\n',
    'gdo GDO_X gdo_y _GDO_Z __gdo_ agdo_ GDO gdo.\nxgdo gdo@\ngdo_ GDO_@\nGDO_\n%%symbol%%gdo_\nend',
    '%%func_symbol%%\n%%obj_symbol%%\n%%func_symbol%%\n%%obj_symbol%%\nl5\n%%func_symbol%% @\n @\n.\nl9\n',
    '%%obj_symbol%% @\nx\nl3\n%%func_symbol%%\nl5\n\nl7',
    '%%type%% x%%type%%y %%type%% %%args%%%%args%%\n%%%%func_symbol%%%%\n%%nosuch%%\n%%\n100%\n%PARAM_SKIP_NO%\nl7\n',
    '%PARAM_SKIP_REMOVE_BEGIN%\na\n%PARAM_SKIP_USE_BEGIN%\nb\n%PARAM_SKIP_END%\nc\n%PARAM_SKIP_END%\n%%symbol%%\nd',
    'a\r\nb@\r\nc\r\n%%symbol%%\r\nd\r\n',
]

def tpl_jobs(line):
    J = []
    for s, p in (('named', 'read'), ('nameless', 'skip'), ('nameless', 'create'), ('funcs', 'read'), ('objs', 'read'), ('one', 'skip')):
        for pfx in ('gdo', 'Ab_1'):
            J.append(('tpl:%s:%s:%s' % (s, p, pfx), u_tpl, (TPLS, ['-param=' + p, '-prefix=' + pfx], s, p, pfx, line)))
    J.append(('tpl:ast', u_tpl, (TPLS, ['-ast-all-symbols'], 'ast', 'read', 'gdo', line)))
    return J

# ---------------------------------------------------------------- any symbol and type names
def u_names(fmt, line=False, n=3, sep=False, out=None):
    """the names and types of the declarations are arbitrary"""
    u = Unit('names')
    C = Cells()
    def w(nm, k=n): return C(nm, k, ID)
    f, o, t1, t2, a1, a2, t3 = (w(x) for x in ('f', 'o', 't', 'q', 'a', 'b', 'z'))
    ch = {}
    def S(cells): return ''.join(ch.setdefault(c[1], chr(0xE000 + len(ch))) for c in cells)
    inp = L('int f', f, '(', t1, ' *', a1, ', ', t2, ' ', a2, ');\n', t3, ' o', o, ';\n')
    decls = [Decl('f', 'int', 'f' + S(f), S(t1) + ' *' + S(a1) + ', ' + S(t2) + ' ' + S(a2), S(a1) + ', ' + S(a2)), Decl('o', S(t3), 'o' + S(o))]
    global text
    old = text
    def text2(cells): return ''.join(chr(c) if type(c) is int else ch.get(c[1], '?') if c[0] == 'c' and c[2] == gx.IDT else '?' for c in cells)
    text = text2
    opt = dict(format=fmt, line=line, separate=sep)
    args = ['-no-date', '-format=' + fmt] + (['-line'] if line else []) + (['-separate'] if sep else []) + (['-out=' + out] if out else [])
    lab = ' '.join(args) + '  input: declarations with arbitrary names'
    outs = ['o.h', 'o.c', 'o.hpp', 'o.cpp'] if sep else [out] if out else []
    try:
        for r in u.run(args + ['in.txt'], label=lab, cells=C, expect='ok', files={b'in.txt': inp}, out=outs):
            check_result(u, r, lab, Opt(**opt), decls, out)
    finally: text = old
    return u.result()

# ---------------------------------------------------------------- options
def u_same(prop, rule, runs, files, why):
    """every run writes the same output"""
    u = Unit('same')
    ref = None
    for args, fl in runs:
        f = dict(files); f.update(fl)
        lab = ' '.join(args)
        rs = u.run(args, label=lab, expect='ok', files=f, out=['o.h', 'o.c', 'o.hpp', 'o.cpp'])
        for r in rs:
            if r.code != 0: continue
            O = {k: text(v[0]) for k, v in outputs(r).items()}
            u.count('obligation: equal output')
            if ref is None: ref = (lab, O); continue
            if O != ref[1]:
                k = next(k for k in sorted(set(O) | set(ref[1])) if O.get(k) != ref[1].get(k))
                a = (O.get(k) or '').split('\n'); b = (ref[1].get(k) or '').split('\n')
                n = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                cons = outputs(r).get(k, (None, None))[1]
                u.bad(prop, rule, gen.site_of(cons, sum(len(x) + 1 for x in a[:n])) if cons else gen.site_last(r), '%s: `%s\' and `%s\' write different output (%s line %d: `%s\' and `%s\')' % (why, lab, ref[0], k, n + 1, a[n][:80] if n < len(a) else '', b[n][:80] if n < len(b) else ''), r, lab)
    return u.result()

def option_jobs(tier):
    J = []
    def full(nm, args, opt, s='named', out=None, files=None): J.append(('opt:' + nm, u_full, (args, opt, s, out, files)))
    m = {'format': 'minimal'}; M = ['-format=minimal']
    full('none', [], {'format': 'c'}, 'one')
    for v in ('c', 'C++', 'cxx', 'cpp', 'plugin', 'plugin-c', 'minimal', 'minimal-c', 'minimal-c++', 'minimal-cxx', 'minimal-cpp', 'MINIMAL-CXX'):
        f = {'cxx': 'c++', 'cpp': 'c++', 'plugin-c': 'plugin', 'minimal-c': 'minimal', 'minimal-cxx': 'minimal-c++', 'minimal-cpp': 'minimal-c++'}.get(v.lower(), v.lower())
        full('format:' + v, ['-format=' + v], {'format': f}, 'one')
    full('D', M + ['-DA', '-DB=1', '-D', 'C=x=y', '-D D =2', '-DE='], dict(m, defines=('A', 'B=1', 'C=x=y', 'D=2', 'E=')))
    full('include', M + ['-include=a.h', '-include=<b.h>', '-include="c.h"', '-include=nq:NQ', '-include', 'nq.h', '--include=NQ:X', '-include=nq:', '-include="', '-include=<x"'],
         dict(m, includes=('a.h', '<b.h>', '"c.h"', 'nq:NQ', 'nq.h', 'nq:X', 'nq:', '"', '<x"')))
    for k, v in enumerate(('foo', 'n', 'nq', 'nqfoo', 'nq:LIB', 'NQ:LIB', 'nq:', 'ext', 'extfoo', 'ext:foo', 'EXT:foo', 'ext:', 'e', 'apifoo', 'a', 'api:2:foo', 'API:2:foo', 'api::x', 'api:', 'api:1:a:b', '"q"', 'L"q"', '"', 'L"', 'ext:"q"', 'ext:L"q"', 'libfoo.so.1', 'nettle', 'avcodec', 'expat', 'eq:x', 'aq:x', 'nxt:x', 'exq:',
        'ext:a:b', 'nq:a:b', 'foo:bar', 'api:2:a.b:c', 'my lib', 'ext:a b', 'd/../foo.so', 'ext:../x.y', 'C:\\x', 'ext:nq:x', 'nq:ext:x', 'api:0:ext:x', 'a=b', 'ext:a=b', 'nq:A B(C)', 'ext::', '@rpath/x', '"a:b"', 'ext:"a:b"', 'L"a b"')):
        full('library:%d' % k, M + ['-library=' + v], dict(m, library=v), 'one')
    full('include2', M + ['-include=a b.h', '-include=sys/x.h', '-include=nq:a:b', '-include=ext:x', '-include=nq', '-include="a', '-include=a"', '-include=<>', '-include=a>', '-include=nq:<y.h>', '-include=nq:"z.h"', '-include=a.h', '-include=a.h'],
         dict(m, includes=('a b.h', 'sys/x.h', 'nq:a:b', 'ext:x', 'nq', '"a', 'a"', '<>', 'a>', 'nq:<y.h>', 'nq:"z.h"', 'a.h', 'a.h')))
    full('D2', M + ['-DA=a b', '-DA', '-DB=-1', '-DC="x y"', '-DD==', '-DE=(1)', '-DF_=%%x', '-DG=@', '-DB=-1'], dict(m, defines=('A=a b', 'A', 'B=-1', 'C="x y"', 'D==', 'E=(1)', 'F_=%%x', 'G=@', 'B=-1')))
    full('prefix', M + ['-prefix=xY_9'], dict(m, prefix='xY_9'))
    full('prefix2', ['-format=plugin', '-prefix=gdox'], {'format': 'plugin', 'prefix': 'gdox'}, 'one')
    full('prefix3', ['-format=c', '-prefix=a', '-separate', '-out=o.h'], {'format': 'c', 'prefix': 'a', 'separate': True}, 'named', 'o.h')
    full('prefix4', ['-format=c++', '-prefix=Lib', '-separate', '-out=o.h'], {'format': 'c++', 'prefix': 'Lib', 'separate': True}, 'named', 'o.h')
    full('prefix-dash', M + ['-prefix=a-b'], dict(m, prefix='a-b'), 'one')
    full('pragma', M + ['-no-pragma-once'], dict(m, pragma=False))
    full('pragma-cxx', ['-format=minimal-c++', '-no-pragma-once', '-out=d/x y-1.H', '-prefix=q'], {'format': 'minimal-c++', 'pragma': False, 'prefix': 'q'}, 'one', 'd/x y-1.H')
    full('pragma-sep', ['-format=plugin', '-no-pragma-once', '-out=o.tar.h', '-separate'], {'format': 'plugin', 'pragma': False, 'separate': True}, 'one', 'o.tar.h')
    full('line', M + ['-line'], dict(m, line=True))
    for p in ('skip', 'create', 'read'):
        full('param:' + p, M + ['-param=' + p], dict(m, param=p), 'nameless' if p != 'read' else 'named')
        full('param-c:' + p, ['-format=c', '-param=' + p.upper()], {'format': 'c', 'param': p}, 'nameless' if p != 'read' else 'named')
    full('out', M + ['-out=d/o.x'], m, 'one', 'd/o.x'); full('out2', M + ['-out', 'o'], m, 'one', 'o')
    full('sep', ['-format=plugin', '-separate', '-out=d.e/o'], {'format': 'plugin', 'separate': True}, 'one', 'd.e/o')
    full('sep-min', M + ['-separate', '-out=o.y'], dict(m, separate=True), 'one', 'o.y'); full('sep-mincxx', ['-format=minimal-c++', '-separate', '-out=o.y'], {'format': 'minimal-c++', 'separate': True}, 'one', 'o.y')
    full('force', M + ['-force'], m, 'one'); full('force-out', M + ['-force', '-out=o.h'], m, 'one', 'o.h')
    full('ast-all', M + ['-ast-all-symbols'], m, 'one'); full('ast-all2', M + ['-ast-all-symbols', '-Snosym', '-Pzz'], m, 'ast')
    full('ignore', M + ['-ignore-options'], m, 'one')
    # any order
    A = ['-format=minimal', '-no-date', '-DX', '-line', '-prefix=ab']
    J.append(('same:order1', u_same, ('C17', 'order-dependent', [(list(p) + ['in.txt'], {}) for p in itertools.permutations(A)][::7] + [(['in.txt'] + A[::-1], {})], {b'in.txt': NAMED}, 'the order of the options matters')))
    B = ['-format=plugin', '-separate', '-out=o.h', '-no-pragma-once', '-no-date', '-library=ext:q', '-param=skip', '-include=z.h', '-force', '-Sfoo', '-Pb']
    J.append(('same:order2', u_same, ('C17', 'order-dependent', [(B[k:] + B[:k] + ['in.txt'], {}) for k in range(0, len(B), 2)] + [(B[:5] + ['in.txt'] + B[5:], {}), (B[::-1] + ['in.txt'], {})], {b'in.txt': NAMED}, 'the order of the options matters')))
    # -a=b, -a b, --a=b, --a b
    for a, v in (('format', 'minimal'), ('include', 'x.h'), ('library', 'ext:x'), ('out', 'o.h'), ('prefix', 'pq'), ('param', 'skip'), ('template', 't.x'), ('templates-path', 'tp')):
        base = ['-no-date'] + ([] if a == 'format' else M)
        J.append(('same:form:' + a, u_same, ('C17', 'argument-form', [(base + x + ['in.txt'], {}) for x in (['-%s=%s' % (a, v)], ['-' + a, v], ['--%s=%s' % (a, v)], ['--' + a, v])], {**EXT, b'in.txt': ONE, b't.x': TPL}, 'the form of the argument matters')))
    for a, v in (('D', 'X=1'), ('P', 'f'), ('S', 'foo')):
        J.append(('same:form:' + a, u_same, ('C17', 'argument-form', [(['-no-date'] + M + x + ['in.txt'], {}) for x in (['-%s%s' % (a, v)], ['-' + a, v])], {b'in.txt': NAMED}, 'the form of the argument matters')))
    J.append(('same:flags', u_same, ('C17', 'argument-form', [(M + x + ['in.txt'], {}) for x in (['-no-date', '-line', '-no-pragma-once', '-force', '-separate', '-ast-all-symbols', '-ignore-options'], ['--no-date', '--line', '--no-pragma-once', '--force', '--separate', '--ast-all-symbols', '--ignore-options'])], {b'in.txt': NAMED}, 'the form of the option matters')))
    # %option lines
    O = [('line', ['-line']), ('no-date', []), ('no-pragma-once', ['-no-pragma-once'])] + [('%s=%s' % (a, v), ['-%s%s%s' % (a, '' if a == 'D' else '=', v)]) for a, v in
         (('D', 'X'), ('D', 'X=1=2'), ('format', 'plugin'), ('format', 'MINIMAL-c++'), ('include', 'x.h'), ('include', '<x.h>'), ('include', 'nq:X'), ('library', 'foo'), ('library', 'ext:foo'), ('library', 'api:1:foo'), ('param', 'skip'), ('param', 'CREATE'), ('prefix', 'qw'))]
    for k, (o, c) in enumerate(O):
        base = ['-no-date'] + ([] if o.startswith('format') else M)
        J.append(('same:option:%s' % o, u_same, ('C17', 'option-line', [(base + c + ['in.txt'], {b'in.txt': ONE}), (base + ['in.txt'], {b'in.txt': b'%option ' + o.encode() + b'\n' + ONE}),
            (base + ['in.txt'], {b'in.txt': ONE + b'%option\t \\\n ' + o.encode() + b' \n'}), (base + ['-'], {})][:3], {}, 'the %option line and the command-line option differ')))
        J.append(('same:ignored:%s' % o, u_same, ('C17', 'ignore-options', [(base + ['in.txt'], {b'in.txt': ONE}), (base + ['-ignore-options', 'in.txt'], {b'in.txt': b'%option ' + o.encode() + b'\n' + ONE})], {}, '-ignore-options does not ignore the line')))
    every = b'%option ' + b' '.join(o.encode() for o, c in O if not o.startswith(('format', 'param=C', 'library=ext', 'library=api'))) + b'\n'
    cmd = [x for o, c in O if not o.startswith(('format', 'param=C', 'library=ext', 'library=api')) for x in c]
    J.append(('same:option:all', u_same, ('C17', 'option-line', [(['-no-date'] + M + cmd + ['in.txt'], {b'in.txt': NAMED}), (M + ['in.txt'], {b'in.txt': every + NAMED}), (M + ['in.txt'], {b'in.txt': NAMED.replace(b'int foo', every.replace(b' ', b'\n%option ', 0) + b'int foo', 1)})], {}, 'the %option lines and the command-line options differ')))
    J.append(('same:option:stdin', u_same, ('C17', 'option-line', [(['-no-date'] + M + ['-line', 'in.txt'], {b'in.txt': ONE}), (['-no-date'] + M + ['-line', 'in.txt'], {b'in.txt': b'%option line\n' + ONE})], {}, 'twice the same setting')))
    # wherever the line stands in the input
    body = [(b'', b'typedef struct {\nint a; } t;\nint foo(\nint a);\nint bar(t *b);\nobj_t quux_obj;\n')]
    W = body[0][1]; P = [k + 1 for k, c in enumerate(W) if c == 10]
    for o, c in O[:1] + [('library=ext:foo', ['-library=ext:foo']), ('include=x.h', ['-include=x.h'])]:
        base = ['-no-date'] + M; l = b'%option ' + o.encode() + b'\n'
        J.append(('same:place:%s' % o, u_same, ('C17', 'option-line', [(base + c + ['in.txt'], {b'in.txt': W})] + [(base + ['in.txt'], {b'in.txt': W[:k] + (l if k < len(W) else l[:-1]) + W[k:]}) for k in [0] + P] +
            [(base + ['in.txt'], {b'in.txt': l[:-1] + b'\r\n' + W}), (base + ['in.txt'], {b'in.txt': b'/* x\n*/' + b'\n' + l + W}), (base + ['in.txt'], {b'in.txt': W + b'struct q {\n int b;\n' + l + b'};\n'}), (base + ['in.txt'], {b'in.txt': W + b'struct q {\n struct { int b;\n' + l + b'} x;\n};\n'}), (base + ['in.txt'], {b'in.txt': W + b'typedef int\n' + l + b'q;\n'}), (base + ['in.txt'], {b'in.txt': W + b'typedef\n' + l + b'int q;\n'}), (base + ['in.txt'], {b'in.txt': W + b'union q\n' + l + b'{ int x; };\n'})], {}, 'the place of the %option line matters')))
    # templates-path is ignored with a custom template, format too
    J.append(('same:template', u_same, ('C17', 'template-ignores', [(x + ['-template=t.x', 'in.txt'], {}) for x in ([], ['-format=c++'], ['-templates-path=tp'], ['-templates-path=nowhere', '-separate'])], {**EXT, b'in.txt': ONE, b't.x': TPL}, '-format and -templates-path are ignored with a custom template')))
    return J

# a small set of external templates
EXTT = {'license.h': '// lic gdo\n// GDO_LIC\n', 'filename_macros.h': '#define gdo_fm 1\n\n#define GDO_FM x@\n  y\n', 'common.h': 'ch %%symbol%% gdo_ch\n', 'common.c': 'cc @\n %%func_symbol%%\ncc3\n', 'c.h': 'c.h\n%%type%% %%func_symbol%%(%%args%%)\n', 'c.c': 'c.c\n%PARAM_SKIP_REMOVE_BEGIN%\nw %%param_names%%\n%PARAM_SKIP_END%\nend c.c\n',
        'cxx.hpp': 'cxx.hpp\n%%obj_symbol%%\nx\n', 'cxx.cpp': 'cxx.cpp\n%%symbol%%\n', 'minimal.h': 'min\n\n%%obj_type%% %%obj_symbol%% @\n-\nGDO_END\n', 'minimal_cxxeh.hpp': 'mincxx %%func_symbol%%\n\n', 'plugin.h': 'plugin.h GDO_\n%%sym_type%%\n', 'plugin.c': 'plugin.c\n%%args%%\nx\n'}
EXT = {('tp/' + k).encode(): v.encode() for k, v in EXTT.items()}

def ext_jobs(line):
    J = []
    for fmt in ('c', 'c++', 'plugin', 'minimal', 'minimal-c++'):
        if not line: J.append(('ext:missing:' + fmt, u_extmissing, (fmt, ['license.h', 'filename_macros.h'] + spec.PARTS[fmt][2])))
    for fmt in ('c', 'c++', 'plugin', 'minimal', 'minimal-c++'):
        for sep in (False, True):
            if sep and fmt.startswith('minimal'): continue
            for path in ('tp', 'tp/') if not sep else ('tp',):
                a = ['-format=' + fmt, '-templates-path=' + path] + (['-line'] if line else []) + (['-separate', '-out=o.h'] if sep else [])
                J.append(('ext:%s:%s%s' % (fmt, path, ':sep' if sep else ''), u_ext, (a, dict(format=fmt, line=line, separate=sep), 'named', 'o.h' if sep else None)))
        a = ['-format=' + fmt, '-templates-path=tp', '-prefix=pq', '-param=skip'] + (['-line'] if line else [])
        J.append(('ext:%s:prefix' % fmt, u_ext, (a, dict(format=fmt, line=line, prefix='pq', param='skip'), 'nameless', None)))
    return J

def u_ext(args, opt, set_, out):
    opt = dict(opt, templates=lambda n: EXTT[n])
    return u_full(args, opt, set_, out, EXT)

def u_extreal(fmt, line):
    """the template files of the source tree given as external templates write what the embedded ones do"""
    f = {('tp/' + n).encode(): spec.tfile(n).encode('latin1') for n in EXTT}
    return u_full(['-format=' + fmt, '-templates-path=tp'] + (['-line'] if line else []), dict(format=fmt, line=line), 'named', None, f)
def u_extmissing(fmt, parts):
    u = Unit('extmissing')
    for n in parts:
        f = dict(EXT); f.pop(('tp/' + n).encode()); f[b'in.txt'] = ONE
        u.run(['-format=' + fmt, '-templates-path=tp', 'in.txt'], label='-format=%s -templates-path=tp without %s' % (fmt, n), expect='fail', files=f, out=())
    return u.result()

def format_jobs(tier, line):
    J = []
    for fmt in ('c', 'c++', 'plugin', 'minimal', 'minimal-c++'):
        for s, p in (('named', 'read'), ('nameless', 'skip'), ('nameless', 'create'), ('funcs', 'read'), ('objs', 'read'), ('one', 'read'), ('ast', 'read')):
            for sep in (False, True):
                if sep and fmt.startswith('minimal'): continue
                if tier == 'quick' and fmt in ('c', 'c++') and (s, sep) in (('funcs', True), ('objs', False), ('one', False), ('ast', True), ('one', True)): continue
                a = ['-format=' + fmt, '-param=' + p] + (['-line'] if line else []) + (['-separate', '-out=d/o.h'] if sep else []) + (['-ast-all-symbols'] if s == 'ast' else []) + (['-prefix=Zq'] if s in ('funcs', 'nameless') else [])
                J.append(('fmt:%s:%s:%s%s' % (fmt, s, p, ':sep' if sep else ''), u_full, (a, dict(format=fmt, separate=sep, param=p, line=line, prefix='Zq' if s in ('funcs', 'nameless') else 'gdo'), s, 'd/o.h' if sep else None)))
        J.append(('names:' + fmt, u_names, (fmt, line)))
        if not fmt.startswith('minimal') and tier != 'quick': J.append(('names:sep:' + fmt, u_names, (fmt, line, 3, True, 'o.h')))
    if line: J.append(('extreal', u_extreal, ('plugin', line)))
    else: J += [('extreal:c', u_extreal, ('c', line)), ('extreal:cxx', u_extreal, ('c++', line))]
    return J

# ---------------------------------------------------------------- selection of symbols
SELTPL = b'F:%%func_symbol%%\nO:%%obj_symbol%%\nS:%%symbol%%\n'
def ast_line(kind, name, last=False):
    if kind == 'f': return L('%s-FunctionDecl 0x59d98537ec48 <col:28, line:34:40> col:24 ' % ('`' if last else '|'), name, " 'int (int)'\n| |-ParmVarDecl 0x59d98537ed80 <col:45, col:49> col:49 q 'int'\n")
    if kind == 'v': return L('%s-FunctionDecl 0x59d98537ec48 <col:28, line:34:40> col:24 used ' % ('`' if last else '|'), name, " 'fn_t':'int (void)' extern\n")
    return L('%s-VarDecl 0x59d98537ec48 <col:28, line:34:40> col:24 ' % ('`' if last else '|'), name, " 'int' extern\n")

def u_select(kinds, lens, S, P, alpha, ast=False, all_=False, how='separate'):
    """declarations with names of arbitrary letters of `alpha`, -S and -P values likewise"""
    u = Unit('select')
    C = Cells(); m = gx.maskof(alpha)
    names = [C('d%d' % k, n, m) for k, n in enumerate(lens)]
    sel = [C('s%d' % k, n, m) for k, n in enumerate(S)]; pre = [C('p%d' % k, n, m) for k, n in enumerate(P)]
    args = []
    for o, vs in (('-S', sel), ('-P', pre)):
        for v in vs: args += [L(o, v)] if how == 'separate' else [o, list(v)]
    if all_: args.append('-ast-all-symbols')
    inp = L('TranslationUnitDecl 0x5b4b21b885b8 <<invalid sloc>> <invalid sloc>\n') if ast else []
    for k, (kd, nm) in enumerate(zip(kinds, names)):
        if ast: inp += ast_line(kd, nm, k == len(names) - 1)
        else: inp += L('int ', nm, '(int q);\n') if kd == 'f' else L('void ', nm, '(void);\n') if kd == 'v' else L('int ', nm, ';\n')
    lab = '%s%s: %s with names of %s letters of %r' % (' '.join(['-S<%d>' % n for n in S] + ['-P<%d>' % n for n in P]), ' -ast-all-symbols' if all_ else '', 'Clang AST' if ast else 'prototypes', lens, alpha)
    lab += ', kinds %s' % kinds
    for r in u.run(args + ['-template=t.x', 'in.txt'], label=lab, cells=C, files={b'in.txt': inp, b't.x': SELTPL}, out=(), maxpaths=60000):
        if type(r.code) is not int: continue
        cells = [c for x in names + sel + pre for c in x]
        for env in assigns(r.st, cells, per=len(alpha), cap=400):
            s = lambda v: inst(env, v).decode('latin1')
            N = [s(x) for x in names]; SS = [s(x) for x in sel]; PP = [s(x) for x in pre]
            u.count('obligation: selected symbols')
            scn = '%s  -S%s -P%s%s' % (', '.join('%s %s' % z for z in zip(kinds, N)), SS, PP, ' -ast-all-symbols' if all_ else '')
            dup = len(set(N)) < len(N)
            everything = all_ and ast or not SS and not PP
            seen = []
            for k, n in zip(kinds, N):
                if n in [x[1] for x in seen]: continue
                if everything or n in SS or any(n.startswith(p) for p in PP): seen.append((k, n))
            missing = [x for x in SS if x not in N] if not (all_ and ast) else []
            ok = bool(seen) and not missing and not (ast and not SS and not PP and not all_)
            why = None
            if r.code & 0xff == 0:
                F = [n for k, n in seen if k != 'o']; O = [n for k, n in seen if k == 'o']
                got = ''.join(chr(x) if type(x) is int else chr(inst(env, [x])[0]) for x in r.stdout).split('\n')
                gF = [l[2:] for l in got if l.startswith('F:')]; gO = [l[2:] for l in got if l.startswith('O:')]; gS = [l[2:] for l in got if l.startswith('S:')]
                if not ok:
                    why = ('failure-as-success', 'succeeds although %s' % ('the input does not declare `%s\'' % missing[0] if missing else 'no symbol is selected'))
                elif gF != F or gO != O: why = ('selection', 'covers functions %s and objects %s instead of %s and %s' % (gF, gO, F, O))
                elif gS != F + O: why = ('selection', 'uses the symbols %s instead of %s' % (gS, F + O))
            elif ok and not (dup and not ast): why = ('declared-symbol-fails', 'fails: %s' % gxm.vis(r.stderr)[:150])
            if why:
                u.bad('C16', why[0], gen.site_last(r), '%s: the run %s' % (scn, why[1]), r, lab); break
    return u.result()

def select_jobs(tier):
    J = []
    def a(nm, *x, **k): J.append(('select:%s' % nm, functools.partial(u_select, **k), x))
    KK = ('ffo', 'fov', 'oof', 'vfo') if tier == 'quick' else [''.join(x) for x in itertools.product('fov', repeat=3)]
    for ast in (False, True):
        t = 'ast' if ast else 'txt'
        for kk in KK:
            for S, P in (((), ()), ((1,), ()), ((1, 1), ()), ((), (1,)), ((), (1, 1)), ((1,), (1,)), ((1, 1), (1,))):
                a('%s:%s:S%d:P%d' % (t, kk, len(S), len(P)), kk, (1, 1, 1), S, P, 'abc', ast=ast)
                if ast and (S, P) in (((), ()), ((1,), ()), ((1,), (1,))): a('%s:%s:all:S%d:P%d' % (t, kk, len(S), len(P)), kk, (1, 1, 1), S, P, 'abc', ast=ast, all_=True)
            if not ast: a('%s:%s:all' % (t, kk), kk, (1, 1, 1), (1,), (), 'abc', ast=ast, all_=True)
        for S, P in (((1,), (1,)), ((2,), (1,)), ((2,), ()), ((), (2,)), ((), (3,)), ((3,), (2,)), ((2, 2), ()), ((2, 2), (1,)), ((), (1, 2))):
            a('%s:len2:%s:%s' % (t, S, P), 'fo', (2, 2), S, P, 'ab', ast=ast); a('%s:len12:%s:%s' % (t, S, P), 'of', (1, 2), S, P, 'aB', ast=ast)
            if tier == 'thorough': a('%s:len122:%s:%s' % (t, S, P), 'ofv', (1, 2, 2), S, P, 'ab', ast=ast); a('%s:len31:%s:%s' % (t, S, P), 'ffoo', (3, 1, 2, 2), S, P, 'ab', ast=ast)
        for nm, kk, ln, S_, P_, al in (('under1', 'fo', (2, 2), (), (1,), 'a_'), ('under2', 'of', (3, 2), (), (2,), 'a_'), ('under3', 'f', (3,), (1,), (1,), '_1'), ('case', 'fo', (2, 2), (), (1,), 'aA'), ('prefix2', 'fov', (2, 3, 1), (), (2, 1), 'ab'), ('prefix3', 'of', (3, 4), (), (3,), 'ab'),
                                       ('digit', 'fo', (2, 2), (2,), (2,), 'a1'), ('longer', 'fo', (2, 1), (3,), (3,), 'ab'), ('same', 'fo', (2, 2), (2, 2), (1,), 'a_')): a('%s:%s' % (t, nm), kk, ln, S_, P_, al, ast=ast)
        a('%s:four' % t, 'fofo', (1, 1, 1, 1), (1, 1, 1), (), 'abcd', ast=ast)
        a('%s:arg' % t, 'fo', (2, 2), (2,), (1,), 'ab', ast=ast, how='arg')
    return J

# ---------------------------------------------------------------- every form of a declaration
TYPES = ['int', 'unsigned long long int', 'const char *', 'char *const', 'struct s', 'struct s *', 'enum e', 'union u *', 'T_t', 'T const * const *', 'volatile short', 'const struct s **', 'externx', 'void *', 'int3', '_Bool', 'typedefs', 'structure *']
# parameter lists: (named text, names, nameless text, created names, created text)
PL = [('', '', '', '', ''), ('void', '', 'void', '', 'void'), ('int a', 'a', 'int', 'a1', 'int a1'), ('const char *fmt, ...', 'fmt', 'const char *, ...', 'a1', 'const char *a1, ...'),
      ('int a, char *b', 'a, b', 'int, char *', 'a1, a2', 'int a1, char *a2'), ('struct s *v, enum e w', 'v, w', 'struct s *, enum e', 'a1, a2', 'struct s *a1, enum e a2'),
      ('int (*cb)(int, int)', 'cb', 'int (*)(int, int)', 'a1', 'int (*a1)(int, int)'), ('char x[3], int y[]', 'x, y', 'char [3], int []', 'a1, a2', 'char a1[3], int a2[]'),
      ('T *const *a, unsigned long b, void *c', 'a, b, c', 'T *const *, unsigned long, void *', 'a1, a2, a3', 'T *const *a1, unsigned long a2, void *a3'),
      ('void (*f)(void), int n', 'f, n', 'void (*)(void), int', 'a1, a2', 'void (*a1)(void), int a2'), ('char x[2][3]', 'x', 'char [2][3]', 'a1', 'char a1[2][3]')]

def forms():
    """(input text of one declaration with name NAME, Decl for it, parameter mode)"""
    out = []
    for t in TYPES:
        out.append(('%s NAME' % t, Decl('o', t, 'NAME'), 'read'))
        for b in ('[3]', '[]', '[3][N]'): out.append(('%s NAME%s' % (t, b), Decl('o', '@PFX@_NAME__t', 'NAME', typedef='%s @PFX@_NAME__t%s' % (t, b)), 'read'))
    def fn(t, pl, modes=('read', 'create', 'skip')):
        for mode in modes:
            txt, names = (pl[0], pl[1]) if mode == 'read' else (pl[2], '') if mode == 'skip' else (pl[2], pl[3])
            args = pl[4] if mode == 'create' else txt
            out.append(('%s NAME(%s)' % (t, txt), Decl('f', t, 'NAME', args, names), mode))
            out.append(('%s (NAME)(%s)' % (t, txt), Decl('f', t, 'NAME', args, names), mode))
            out.append(('%s (*NAME(%s))' % (t, txt), Decl('f', t + ' *', 'NAME', args, names), mode))
            out.append(('%s (**NAME(%s))' % (t, txt), Decl('f', t + ' **', 'NAME', args, names), mode))
            if mode == 'read':
                out.append(('%s (*NAME)(%s)' % (t, txt), Decl('o', '@PFX@_NAME__t', 'NAME', typedef='%s (*@PFX@_NAME__t)(%s)' % (t, txt)), mode))
    for t in TYPES: fn(t, PL[4], ('read',)); fn(t, PL[1], ('create',))
    for pl in PL: fn('int', pl); fn('void', pl, ('read',)); fn('struct s *', pl, ('read', 'create'))
    # several identifiers before an attribute-like parenthesis
    out.append(('char **(NAME)(void)', Decl('f', 'char **', 'NAME', 'void', ''), 'read'))
    out.append(('int ((NAME))(int a)', Decl('f', 'int', 'NAME', 'int a', 'a'), 'read'))
    return out

BETWEEN = [('', ''), ('/* int no(int a); */ ', ''), ('// int no(void);\n', '// x \\\n int no;\n'), ('#define no int no(void);\n', '\n#if 0 /* int no;\n int nono; */\n'), ('struct q { int a; char *b; } ;', ''), ('typedef int (*tt)(int);', 'typedef struct { int a; } tu;'),
           ('enum { A = 1, B = 2 };', 'enum en { C };'), ('extern ', ''), (';', ';'), ('union z;', 'struct zz;'), ('struct a { struct b { int c; } d; };', ''), ('\n%option no-date\n', '\n'), ('/**/', '\t\f\v\r\n')]
DECLTPL = b'F|%%type%%|%%func_symbol%%|%%args%%|%%param_names%%\nO|%%obj_type%%|%%obj_symbol%%\n'

def u_forms(items, pre, post, group, mode, extra=()):
    """`group` declarations per input: all of them are used, as what they are"""
    u = Unit('forms')
    for k in range(0, len(items), group):
        part = items[k:k + group]
        txt = ''; ds = []
        for n, (t, d, m) in enumerate(part):
            nm = 'n%d%s' % (n, 'abx'[n % 3] * (n % 4))
            txt += pre + t.replace('NAME', nm) + ';' + post
            ds.append(Decl(d.kind, d.type.replace('NAME', nm), nm, d.args, d.names, d.typedef.replace('NAME', nm) if d.typedef else None))
        ds = [d.at('read', 'gdo') for d in ds]
        lab = '-param=%s  input: %s' % (mode, txt[:120])
        for r in u.run(['-param=' + mode, '-template=t.x', 'in.txt'] + list(extra), label=lab, expect='ok', files={b'in.txt': txt.encode(), b't.x': DECLTPL}, out=()):
            if r.code != 0: continue
            got = [norm(l) for l in text(r.stdout).split('\n') if l]
            F = [norm('F|%s|%s|%s|%s' % (d.type, d.sym, d.args, d.names)) for d in ds if d.kind == 'f']; O = [norm('O|%s|%s' % (d.type, d.sym)) for d in ds if d.kind == 'o']
            u.count('obligation: declarations used', len(ds))
            for w in F + O:
                if w not in got: u.bad('C21', 'declaration-lost', gen.site_last(r), 'the declaration of `%s\' is not used as declared: expected %s, the output has %s' % (w.split('|')[2], w, [g for g in got if g.split('|')[2:3] == [w.split('|')[2]]]), r, lab); break
            else:
                x = next((g for g in got if g not in F + O), None)
                if x or got != F + O: u.bad('C21', 'declaration-invented', gen.site_last(r), 'the output has %s for this input' % (x or got), r, lab)
        for r in u.run(['-param=' + mode, '-print-symbols', 'in.txt'] + list(extra), label=lab + ' -print-symbols', expect='ok', files={b'in.txt': txt.encode()}, out=()):
            if r.code != 0: continue
            got = [norm(l) for l in text(r.stdout).split('\n') if l and not l.startswith('/*')]
            want = [norm('typedef ' + d.typedef + ';') for d in ds if d.typedef] + [norm('%s %s;' % (d.type, d.sym)) for d in ds if d.kind == 'o'] + [norm('%s %s(%s);' % (d.type, d.sym, d.args)) for d in ds if d.kind == 'f']
            u.count('obligation: declarations printed', len(want))
            if got != want:
                d1 = next((w for w in want if w not in got), None); d2 = next((g for g in got if g not in want), None)
                u.bad('C21', 'declaration-lost' if d1 else 'declaration-invented', gen.site_last(r), '-print-symbols writes %s instead of %s' % (d2 or 'the lines in another order', d1 or want), r, lab)
    return u.result()

# every name listed must be used, or the run must fail
MULTI = [('int aa, bb;', 'aa bb'), ('int aa, *bb, cc[3];', 'aa bb cc'), ('int aa(int x), bb(int y);', 'aa bb'), ('int aa, bb(void);', 'aa bb'), ('int aa(void), bb;', 'aa bb'), ('struct s { int q; } vv;', 'vv'), ('struct s { int q; } *vv;', 'vv'),
    ('union s { int q; } vv;', 'vv'), ('enum { A } vv;', 'vv'), ('enum s { A } vv; int ww;', 'vv ww'), ('struct { int q; } vv[3];', 'vv'), ('struct s { int q; } ff(void);', 'ff'), ('int ww; struct s { int q; } vv;', 'ww vv'),
    ('extern struct s { int q; } vv;', 'vv'), ('static struct s { int q; } vv; int ww;', 'vv ww'), ('const struct s { int q; } vv; int ww;', 'vv ww'), ('int (aa), (bb);', 'aa bb'), ('int (*aa)(int), bb;', 'aa bb'), ('int (*aa)[3]; int ww;', 'aa ww'),
    ('void (*aa(int x))(int); int ww;', 'aa ww'), ('void (*(*aa)(int))(int); int ww;', 'aa ww'), ('int *(*aa)(int x); int ww;', 'aa ww'), ('int (*aa[3])(int); int ww;', 'aa ww'), ('int aa = 3; int ww;', 'aa ww'), ('int aa = 3, bb; int ww;', 'aa bb ww'),
    ('int aa[3] = { 1, 2 }; int ww;', 'aa ww'), ('int aa(void) { return 1; } int ww;', 'aa ww'), ('inline int aa(void) { return 1; } int ww(void);', 'aa ww'), ('int aa(void) int bb(void);', 'aa bb'), ('int aa(int x) __attribute__((pure)); int ww;', 'aa ww'),
    ('__attribute__((pure)) int aa(int x); int ww;', 'aa ww'), ('int aa __attribute__((aligned(4))); int ww;', 'aa ww'), ('int aa(int x) MACRO; int ww;', 'aa ww'), ('int aa(int x) MACRO(3); int ww;', 'aa ww'), ('int aa[3] MACRO; int ww;', 'aa ww'), ('int (*aa)(int) MACRO; int ww;', 'aa ww'),
    ('extern "C" { int aa; }', 'aa'), ('extern "C" int aa;', 'aa'), ('int aa : 3; int ww;', 'aa ww'), ('(int aa); int ww;', 'aa ww'), ('*aa; int ww;', 'ww'), ('int ww; }', 'ww'), ('{ int ww;', 'ww'), ('int ww; {', 'ww'), ('{ int ww; }', 'ww'), ('int ww; struct s {', 'ww'),
    ('struct s int ww;', 'ww'), ('struct *ww;', 'ww'), ('struct ww; int ww;', 'ww'), ('struct s ww', 'ww'), ('struct s vv, ww;', 'vv ww'), ('enum e vv = A; int ww;', 'vv ww'), ('typedef struct s { int a; } t; struct s vv;', 'vv'), ('typedef int t, u; int ww;', 'ww'), ('typedef enum { A, B } t, *u; t ww;', 'ww'),
    ('typedef int (*t)(struct s { int a; } *x); int ww;', 'ww'), ('typedef struct { struct { int a; } b; } t; int ww;', 'ww'), ('struct a { int b; }; struct a vv; struct a *ff(struct a *);', 'vv ff'), ('int aa; int ww(int a', 'aa ww'), ('int aa; int ww)', 'aa ww'), ('int aa; int', 'aa'), ('int aa; ww', 'aa ww'),
    ('int aa;\n#define X {\nint ww;', 'aa ww'), ('int aa; /* { */ int ww;', 'aa ww'), ('int aa; // \\\n\nint ww;', 'aa ww'), ('int aa; /* */ /* **/ int ww; /***/ int vv;', 'aa ww vv'), ('int aa; #\nint ww;', 'aa ww'), ('int aa; \\\nint ww;', 'aa ww'), ('int aa;\\', 'aa'), ('int aa\\\n;int ww;', 'aa ww'),
    ('int aa;\x00 int ww;', 'aa ww'), ('int aa;\x1a int ww;', 'aa ww'), ('int aa; "x;{" int ww;', 'aa ww'), ("int aa; '{' int ww;", 'aa ww'), ('int \xe4a; int ww;', 'ww'), ('int $a; int ww;', 'ww'), ('int a-a; int ww;', 'ww'), ('int aa. int ww;', 'aa ww'), ('int aa; .. int ww;', 'aa ww'), ('int aa(int .. .); int ww;', 'aa ww'),
    ('int aa(int x,); int ww;', 'aa ww'), ('int aa(,); int ww;', 'aa ww'), ('int aa(int x)(int y); int ww;', 'aa ww'), ('int aa()(); int ww;', 'aa ww'), ('int aa[3](int x); int ww;', 'aa ww'), ('int aa[3; int ww;', 'aa ww'), ('int aa]; int ww;', 'aa ww'), ('int aa[[3]]; int ww;', 'aa ww'), ('int aa[3]bb; int ww;', 'bb ww'), ('int *; int ww;', 'ww'),
    ('int aa *; int ww;', 'aa ww'), ('int (aa; int ww;', 'aa ww'), ('int aa); int ww;', 'aa ww'), ('int ((aa)(int x); int ww;', 'aa ww'), ('int (*aa)(int x; int ww;', 'aa ww'), ('int (*aa(int x)); int ww;', 'aa ww'), ('int (***aa(int x)); int ww;', 'aa ww'), ('int (* aa)(int x)[3]; int ww;', 'aa ww'), ('int (*)(int x); int ww;', 'ww'),
    ('int (aa)[3]; int ww;', 'aa ww'), ('int (*aa); int ww;', 'aa ww'), ('int (aa); int ww;', 'aa ww'), ('struct s; struct t; int ww; struct v;', 'ww'), ('extern; int ww;', 'ww'), ('extern extern int ww;', 'ww'), ('typedef; int ww;', 'ww'), ('typedef typedef int t; int ww;', 'ww'), ('int typedef t; int ww;', 'ww'), ('int struct s; int ww;', 'ww'), ('struct struct s ww;', 'ww')]

def u_multi(part, parts, args):
    u = Unit('multi')
    for k, (s, names) in enumerate(MULTI):
        if k % parts != part: continue
        lab = '%s  input: %r' % (' '.join(args), s)
        for r in u.run(args + ['-print-symbols', 'in.txt'], label=lab, files={b'in.txt': s.encode('latin1')}, out=()):
            if type(r.code) is not int or r.code & 0xff: continue
            got = re.sub(r'/\*.*?\*/', '', text(r.stdout))
            u.count('obligation: nothing dropped')
            for n in names.split():
                if not re.search(r'\b%s\s*(\(|;)' % n, got): u.bad('C21', 'declaration-lost', gen.site_last(r), 'the declaration of `%s\' is dropped and the run succeeds' % n, r, lab); break
    return u.result()

def u_ident(n, form):
    """a name of any n identifier characters"""
    u = Unit('ident')
    C = Cells(); v = C('v', n, gen.WORD)
    txt = {'f': L('int x', v, '(void);\n'), 'o': L('int x', v, ';\n'), 'n': L('int ', v, '(void);\n'), 't': L(v, ' xx;\n')}[form]
    lab = 'input: %s with a name of any %d identifier characters' % (form, n)
    KW = ('extern', 'struct', 'union', 'enum', 'typedef')
    for r in u.run(['-template=t.x', 'in.txt'], label=lab, cells=C, files={b'in.txt': txt, b't.x': DECLTPL}, out=()):
        if type(r.code) is not int: continue
        got = r.stdout
        for env in assigns(r.st, v, per=3, cap=60):
            s = inst(env, v).decode('latin1')
            if form in 'nt' and s in KW: continue
            u.count('obligation: declarations used')
            if r.code & 0xff: u.bad('C21', 'declaration-lost', gen.site_last(r), 'a declaration with the name `%s\' fails: %s' % (s, gxm.vis(r.stderr)[:100]), r, lab); break
            o = inst(env, got).decode('latin1')
            want = {'f': 'F|int|x%s|void|\n' % s, 'o': 'O|int|x%s\n' % s, 'n': 'F|int|%s|void|\n' % s, 't': 'O|%s|xx\n' % s}[form]
            if norm(o) != norm(want): u.bad('C21', 'declaration-lost', gen.site_last(r), 'for the name `%s\' the output is %r' % (s, o), r, lab); break
    return u.result()

def form_jobs(tier):
    J = []; F = forms()
    for mode in ('read', 'create', 'skip'):
        I = [f for f in F if f[2] == mode]
        n = 24
        for k in range(0, len(I), n): J.append(('forms:%s:%d' % (mode, k), u_forms, (I[k:k + n], '', '\n', 6, mode)))
        B = BETWEEN if tier == 'thorough' else BETWEEN
        for b, (pre, post) in enumerate(B):
            S = I if tier == 'thorough' else I[b % 3::3]
            J.append(('forms:%s:between%d' % (mode, b), u_forms, (S, pre, post, 12, mode)))
    for p in range(8):
        for m in ('skip', 'create', 'read'): J.append(('multi:%s:%d' % (m, p), u_multi, (p, 8, ['-param=' + m])))
    for n in range(1, 9 if tier == 'quick' else 15):
        for f in 'font': J.append(('ident:%s:%d' % (f, n), u_ident, (n, f)))
    return J
