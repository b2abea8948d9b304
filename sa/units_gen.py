"""Scenario units of the generator program that need no output oracle: file handling (C12), failure
reporting (C13), completeness of output (C14), reproducibility (C15), options (C17), memory (C19)."""
import itertools, re
import gen, gx, gxm, prog
from gen import Unit, Cells, L, ID, ANY, LOWER, UPPER, DIGIT, WORD, NOTNL
from gx import maskof, bits_of

FORMATS = ('c', 'c++', 'plugin', 'minimal', 'minimal-c++')
IN = b'int foo(char *a, int b);\nextern int obj;\n'
MIX = b'''/* comment */
#include <x.h> // foo
%option no-date
%option D=ZQ=1 include=q.h
int foo(char *a, int b);
extern int obj;
void bar(const char *fmt, ...);
struct zz { int a; };
char *names[4];
int (*fp)(int);
typedef int (*td)(int);
struct zz *mk(struct zz *z, void (*cb)(int));
'''
AST = b'''TranslationUnitDecl 0x5b4b21b885b8 <<invalid sloc>> <invalid sloc>
|-VarDecl 0x59d98537ea20 <line:31:1, col:35> col:35 h_cb 'h_cb_t':'void (*)(const char *)' extern
| `-VisibilityAttr 0x59d98537ea88 <line:21:44, col:65> Default
|-FunctionDecl 0x59d98537ec48 <col:28, line:34:40> col:24 h_init 'h *()'
|-FunctionDecl 0x59d98537efa8 <col:28, line:35:67> col:24 h_argv 'h *(int, char **)'
| |-ParmVarDecl 0x59d98537ed80 <col:45, col:49> col:49 argc 'int'
| `-ParmVarDecl 0x59d98537ee80 <col:55, col:66> col:61 argv 'char **'
`-VarDecl 0x59d98537ea30 <line:31:1, col:35> col:35 h_n 'int' extern
'''
TPL = b'// t\n%%type%% %%func_symbol%%(%%args%%); @\n  more\n%%obj_type%% %%obj_symbol%%;\ngdo_x %%symbol%%\n\nend'

# ---------------------------------------------------------------- C12
def u_overwrite(fmt, sep, force, fsopts, tpl=False, syms=IN):
    u = Unit('overwrite')
    args = ['-out=o.x']
    outs = [b'o.x']
    if sep:
        x = fmt in ('c++',)
        args.append('-separate'); outs = [b'o.hpp', b'o.cpp'] if x else [b'o.h', b'o.c']
    if tpl: args += ['-template=t.x']; outs = [b'o.x']
    else: args.append('-format=' + fmt)
    if force: args.append('-force')
    rs = u.run(args + ['in.txt'], force=force, out=outs, fsopts=fsopts, files={b'in.txt': syms, b't.x': TPL})
    for r in rs:
        st = {k[1]: v for k, v in r.st.X.items() if k[0] == 'fs'}
        first = {}
        for e in r.events:
            if e[0] in ('openw', 'remove') and e[1] not in first: first[e[1]] = e[2]
        bad = [e for e in r.events if e[0] == 'fault']
        if type(r.code) is int and r.code & 0xff == 0:
            for o in outs:
                if not any(e[0] == 'openw' and e[1] == tuple(o) and e[3] for e in r.events):
                    u.bad('C14', 'no-output', gen.site_last(r), 'exit status 0 but %s was not written' % o.decode(), r, ' '.join(args))
        elif force and not bad and not r.stderr == b'':
            u.bad('C12', 'force-ignored', gen.site_last(r), 'forced overwriting is refused: %s' % gxm.vis(r.stderr)[:160], r, ' '.join(args))
    return u.result()

def u_stdout(fmt):
    """no output name or "-": nothing but standard output is touched"""
    u = Unit('stdout')
    for extra in ([], ['-out=-'], ['-separate'], ['-out=-', '-separate', '-force'], ['-force']):
        for r in u.run(['-format=' + fmt] + extra + ['in.txt'], out=(), fsopts=('absent', 'file', 'link'), files={b'in.txt': IN}, expect='ok'):
            if r.code == 0 and not r.stdout: u.bad('C14', 'no-output', gen.site_last(r), 'exit status 0 but nothing was written to standard output', r, ' '.join(extra))
    for extra in ([], ['-out=-', '-force']):
        for r in u.run(['-template=t.x'] + extra + ['in.txt'], out=(), fsopts=('absent', 'file', 'link'), files={b'in.txt': IN, b't.x': TPL}, expect='ok'):
            if r.code == 0 and not r.stdout: u.bad('C14', 'no-output', gen.site_last(r), 'exit status 0 but nothing was written to standard output', r, ' '.join(extra))
    return u.result()

# ---------------------------------------------------------------- C13 / C14
def u_fault(args, outs, fault, kw):
    u = Unit('fault')
    u.run(args, out=outs, faults=fault, force='-force' in args, **kw)
    return u.result()

def fault_jobs(tier):
    J = []
    F = {b'in.txt': IN, b't.x': TPL, b'o.ast': AST}
    base = [
        ('stdout-min', ['-format=minimal', 'in.txt'], ()),
        ('stdout-plugin', ['-format=plugin', 'in.txt'], ()),
        ('out-min', ['-format=minimal-c++', '-out=o.h', 'in.txt'], ('o.h',)),
        ('out-min-force', ['-format=minimal', '-out=o.h', '-force', 'in.txt'], ('o.h',)),
        ('sep', ['-format=plugin', '-out=o.h', '-separate', 'in.txt'], ('o.h', 'o.c')),
        ('sep-force', ['-format=plugin', '-out=o.h', '-separate', '-force', 'in.txt'], ('o.h', 'o.c')),
        ('template', ['-template=t.x', 'in.txt'], ()),
        ('template-out', ['-template=t.x', '-out=o.h', 'in.txt'], ('o.h',)),
        ('template-stdin', ['-template=-', '-out=o.h', '-line', 'in.txt'], ('o.h',)),
        ('print-symbols', ['-print-symbols', 'in.txt'], ()),
        ('print-symbols-ast', ['-print-symbols', '-ast-all-symbols', 'o.ast'], ()),
        ('stdin', ['-print-symbols', '-'], ()),
        ('help', ['-help'], ()), ('full-help', ['-full-help'], ()), ('version', ['-version'], ()),
    ]
    if tier == 'thorough':
        base += [('out-c', ['-format=c', '-out=o.h', 'in.txt'], ('o.h',)), ('out-cxx', ['-format=c++', '-out=o.h', 'in.txt'], ('o.h',)),
                 ('sep-c', ['-format=c', '-out=o.h', '-separate', 'in.txt'], ('o.h', 'o.c')), ('sep-cxx', ['-format=c++', '-out=o.h', '-separate', '-force', 'in.txt'], ('o.hpp', 'o.cpp'))]
    for nm, args, outs in base:
        kw = {'files': F, 'stdin': IN if 'template-stdin' != nm else TPL}
        for f in (('write',), ('openw', 'fs'), ('fopen', 'fread', 'malloc'), ('time',)):
            if tier != 'thorough' and nm in ('sep', 'out-min', 'template') and f == ('time',): continue
            J.append(('fault:%s:%s' % (nm, f[0]), u_fault, (args, outs, f, kw)))
    d = ['license.h', 'filename_macros.h', 'common.h', 'common.c', 'c.h', 'c.c', 'cxx.hpp', 'cxx.cpp', 'minimal.h', 'minimal_cxxeh.hpp', 'plugin.h', 'plugin.c']
    for f in (('write',), ('openw',), ('fs',), ()):
        J.append(('fault:dump:%s' % (f[0] if f else 'none'), u_dump, (f,)))
    return J

def dump_names():
    import build
    L = open(build.SRC + '/list.h').read()
    return re.findall(r'TEMPLATE\(\s*([\w.]+)', L)

def u_dump(fault):
    u = Unit('dump')
    outs = ['d/' + n for n in dump_names()]
    for fs in (('absent',), ('dir',), ('file',)):
        u.run_dump = True
        try: rs = u.P.run(['-dump-templates=d'], faults=fault, fsopts=fs)
        except gx.Undecided as e: u.undecided.append(str(e)); continue
        for r in rs:
            u.count('abstract_paths')
            if r.kind in ('undecided', 'budget'): u.undecided.append(str(r.o.val)); continue
            # dumping names no output file: existing templates in the directory may be replaced
            r.events = tuple(e for e in r.events if not (e[0] == 'openw' and e[1] in {tuple(o.encode()) for o in outs}))
            u.common(r, '-dump-templates=d (d is %s)' % fs[0], None, False, outs, None)
            if fs != ('file',) and not fault and r.code == 0:
                import build
                for n in dump_names():
                    got = r.files.get(tuple(('d/' + n).encode()))
                    want = open(build.SRC + '/templates/' + n, 'rb').read()
                    if got is None: u.bad('C14', 'no-output', gen.site_last(r), 'exit status 0 but d/%s was not written' % n, r)
                    elif bytes(got).rstrip(b'\n') != want.rstrip(b'\n') and not dumped_same(bytes(got), want, n):
                        u.bad('C18', 'dumped-template', gen.site_last(r), 'the template written to d/%s differs from the template file of the source tree' % n, r)
    return u.result()

def dumped_same(got, want, name):
    """the dump may begin with the #line directive of the embedded copy"""
    g = got.split(b'\n')
    if g and g[0].startswith(b'#line 1 "') : g = g[1:]
    return b'\n'.join(g).rstrip(b'\n') == want.rstrip(b'\n')

# error inputs: (args, files, stdin)
def bad_runs():
    f = lambda s: {b'in.txt': s if isinstance(s, bytes) else s.encode('latin1')}
    P = ['-print-symbols', 'in.txt']
    R = []
    def a(args, files=None, stdin=b''): R.append((args, f(IN) if files is None else files, stdin))
    # command lines
    a([]); a(['']); a(['-print-symbols']); a(['-nosuch', 'in.txt']); a(['--nosuch', 'in.txt']); a(['-', '-x']); a(['-outfile=x', 'in.txt']); a(['-forcex', 'in.txt'])
    for o in ('-D', '-format', '-include', '-library', '-out', '-P', '-prefix', '-param', '-S', '-template', '-templates-path', '-dump-templates'):
        a(['in.txt', o])
        a(['in.txt', o, ''])
        if len(o) > 2: a([o + '=', 'in.txt']); a(['in.txt', '-' + o])
    for v in ('x', 'cc', 'c+', 'c++x', 'minimalx', 'minimal-', 'plugin-c++', ' c', 'c '): a(['-format=' + v, 'in.txt'])
    for v in ('x', 'skipp', 'rea', 'read ', 'creates'): a(['-param=' + v, 'in.txt'])
    for v in ('=', '=x', ' =x', ' '): a(['-D' + v, 'in.txt'])
    for v in ('api:foo', 'api:', 'API:foo'): a(['-format=minimal', '-library=' + v, 'in.txt']) if v != 'api:' else None
    a(['nofile.txt']); a(['-print-symbols', 'nofile.txt'])
    a(['-template=no.tpl', 'in.txt']); a(['-templates-path=nodir', 'in.txt']); a(['-template=-', '-'])
    a(['-Snosym'] + P); a(['-Sfoo', '-Sfo'] + P); a(['-Sfoo', '-Snosym', '-Pf'] + P); a(['-Pzz'] + P); a(['-PF'] + P); a(['-Sfooo'] + P)
    for o in ([], ['-out=o.x'], ['-out=-'], ['-out=o.x', '-force'], ['-line', '-out=o.x'], ['-print-symbols', '-out=o.x'][1:]): R.append((['-template=-'] + o + ['-'], {}, IN)); R.append((o + ['-', '-template', '-'], {}, TPL))
    # inputs
    for s in ('', '\n', '// x\n', '/* x */', '#define X\n', 'struct x;', 'typedef int x;', 'struct a { int b; };', 'foo', 'foo;', 'int', '*;', '();', 'int foo(;', 'int foo);',
              'int 3 @ x;', 'int x = 3;', 'int foo() { }', '}', '{', 'int foo(void) }', 'struct x {', 'struct x { int a;', 'typedef struct {', 'enum x { A', 'union u { int a; } int foo(void);',
              'int foo(int); int foo(int);', 'int foo(void); int foo;', 'int a; int b; int a;', 'int foo(int, int;', 'int (foo;', 'int foo[;', 'int foo];', 'int *;', 'int (*)(int);', 'int foo(int)(int);',
              'int foo(int a) int bar(int a);', 'int foo(int a), bar(int b);', 'int a[3], b[4];', 'int (*a)(int), (*b)(int);', 'int a, b;', '%option\x01x\nint foo(void);', '%optionx\nint foo(void);', ' %option line\nint foo(void);', '%option nosuch\nint foo(void);', '%option lin\nint foo(void);',
              '%option line=1\nint foo(void);', '%option D=\nint foo(void);', '%option D= X\nint foo(void);', '%option D==1\nint foo(void);', '%option format=\nint foo(void);', '%option format=xx\nint foo(void);', '%option param=xx\nint foo(void);',
              '%option param=\nint foo(void);', '%option prefix=\nint foo(void);', '%option include=\nint foo(void);', '%option library=\nint foo(void);', '%option out=x\nint foo(void);', '%option force\nint foo(void);',
              '%option line', '%option separate\nint foo(void);', '%option Sfoo\nint foo(void);', '%option D\nint foo(void);', '%option format\nint foo(void);',
              '"x"', "'x'", 'int foo(void): 3;', '\\', 'int x\\y;', '\xff', '\x00', 'int foo(void);\x01', 'int\nTranslationUnitDecl 0x1\n', '\nTranslationUnitDecl 0x1\n'):
        a(list(P), f(s))
    a(list(P), f('%option library=api:x\nint foo(void);')) if False else None
    a(['-format=minimal', 'in.txt'], f('%option library=api:x\nint foo(void);'))
    # Clang AST
    A = AST.decode()
    a(list(P), f(A)); a(['-Snosym'] + P, f(A)); a(['-Pzz'] + P, f(A)); a(['-Sh_n', '-Sh_m'] + P, f(A)); a(['-ast-all-symbols'] + P, f(A.split('\n')[0] + '\n')); a(['-Sh_n', '-Sh_x', '-Ph'] + P, f(A))
    # templates that mix placeholder kinds
    for t in ('%%type%% %%obj_type%%', '%%func_symbol%% %%symbol%%', '%%obj_symbol%% %%sym_type%%', '%%symbol%% @\n%%args%%'):
        R.append((['-template=t.x', 'in.txt'], {b'in.txt': IN, b't.x': t.encode()}, b''))
    return R

def u_bad(part, parts):
    u = Unit('bad')
    for k, (args, files, stdin) in enumerate(bad_runs()):
        if k % parts != part: continue
        u.run(args, label='%s   input: %r' % (' '.join(args), files.get(b'in.txt', b'')[:60]), expect='fail', files=files, stdin=stdin, out=(), fsopts=('absent',))
    return u.result()

def good_runs():
    f = lambda s: {b'in.txt': s if isinstance(s, bytes) else s.encode('latin1')}
    P = ['-print-symbols', 'in.txt']; R = []
    def a(args, files=None, stdin=b''): R.append((args, f(IN) if files is None else files, stdin))
    for v in ('c', 'C', 'c++', 'cxx', 'cpp', 'CXX', 'plugin', 'plugin-c', 'minimal', 'minimal-c', 'minimal-c++', 'minimal-cxx', 'minimal-cpp', 'Minimal-C++'): a(['-format=' + v] + P); a(['--format', v] + P)
    for v in ('skip', 'create', 'read', 'SKIP', 'Read'):
        a(['-param=' + v] + P); a(list(P), f('%%option param=%s\nint foo(int a);' % v))
    for v in ('X', 'X=', 'X=1', 'X=a=b', ' X =1'): a(['-D' + v] + P); a(['-D', v] + P)
    for v in ('x.h', '<x.h>', '"x.h"', 'nq:X', 'nq:'): a(['-include=' + v] + P)
    for v in ('foo', 'nq:X', 'ext:foo', 'api:2:foo', 'api::foo', 'nq:', 'ext:', 'api:', 'n', 'e', 'a', 'EXT:x', '"q"', 'L"q"', '"'): a(['-format=minimal', '-library=' + v, 'in.txt'])
    a(['-Sfoo'] + P); a(['-Sfoo', '-Sfoo'] + P); a(['-Pf'] + P); a(['-Pf', '-Pfoo', '-Sfoo'] + P); a(['-Pzz', '-Sobj'] + P); a(['-S', 'foo', '-P', 'o'] + P)
    a(['in.txt', '-print-symbols']); a(['-print-symbols', '-'], stdin=IN); a(['-print-symbols', 'in.txt', 'other']); a(['-ast-all-symbols'] + P)
    for s in ('int foo(a, b)', 'typedef int t; int foo(t);', 'int (foo)(int);', 'int ((foo))(int);', 'int foo(int, ...);', 'int foo(int (*)(int), char [3]);', 'unsigned int (*foo(int));'):
        a(['-param=skip'] + P, f(s)); a(['-param=create'] + P, f(s))
    for s in ('int foo(void);', 'int foo(void)', 'int foo()', 'int foo ( ) ;', 'int x', ';;int x;;', 'struct x; int y;', 'struct x *f(struct y *z);', 'struct s v;', 'enum e g(enum e);', 'union u *h;',
              'struct x { int a; }; int foo(void);', 'typedef struct { int a; } t; int foo(void);', 'typedef int t; int foo(t a);', 'enum { A = 1, B }; int foo(void);', 'struct a { struct b { int c; } d; } ; int foo(void);',
              '%option line no-date\nint foo(void);', '%option D=X=1 D=Y\n%option include=<a.h>\nint foo(void);', 'int foo(int (*cb)(int, int), char *x[3]);', 'int (*fp)(int, char);', 'int (foo)(int a);', 'char *(*foo(int a));', 'unsigned int (*fp)(int);', 'unsigned int (foo)(int a);',
              'char **(foo)(void);', 'int ((foo))(int a);', 'int a[3][4];', 'int a[];', 'int foo(int a, ...);', 'unsigned long long int foo(const unsigned char *const *a);', '/* c */int/**/foo(void)//x\n;', '#if 0\nint foo(void);\n#endif',
              '#define X \\\n int y;\nint foo(void);', 'extern int foo(void);extern int bar;', '\ufeff'.encode('utf8').decode('latin1') + 'int foo(void);', 'int foo(void);\x0c\x0b\r\n', 'int 3x;', '%option\nint foo(void);', 'a b; typedef c d'): a(list(P), f(s))
    A = AST.decode()
    for o in (['-Sh_n'], ['-Ph_'], ['-ast-all-symbols'], ['-Sh_n', '-Ph_a'], ['-Sh_argv', '-Ph_argv'], ['-ast-all-symbols', '-Snosym']): a(o + P, f(A))
    a(['-Sh_n', '-print-symbols', '-'], stdin=AST)
    for t in ('', 'x', '\n\n', '@', '@\n', 'a@', 'a@\nb@\n', 'a@\r\nb', '%', '%%', '%%%%', '%%nosuch%%', '%PARAM_SKIP_END%', '%PARAM_SKIP_USE_BEGIN%\nx', '%PARAM_SKIP_REMOVE_BEGIN%\nx\n%PARAM_SKIP_END%\ny', '%PARAM_SKIP_',
              '%%type%%%%args%%%%param_names%%%%return%%', '%%func_symbol_pad%%|', '%%obj_symbol_pad%%|%%obj_type%%', '%%sym_type%% %%symbol%%', 'gdo GDO_X gdo_y _GDO_', '\x00', 'a\x00b%%symbol%%', '\xff%%symbol%%', '#line 1'):
        for e in ([], ['-line'], ['-prefix=ab'], ['-param=skip']):
            R.append((e + ['-template=t.x', 'in.txt'], {b'in.txt': IN, b't.x': t.encode('latin1')}, b''))
    R.append((['-template=-', 'in.txt'], {b'in.txt': IN}, TPL)); R.append((['-template=t.x', '-'], {b't.x': TPL}, IN))
    return R

def u_good(part, parts):
    u = Unit('good')
    for k, (args, files, stdin) in enumerate(good_runs()):
        if k % parts != part: continue
        u.run(args, label='%s   input: %r' % (' '.join(args), files.get(b'in.txt', b'')[:60]), expect='ok', files=files, stdin=stdin, out=(), nodate=False)
    return u.result()

# ---------------------------------------------------------------- abstract option values
def assigns(st, cells, per=4, cap=3000, ok=None):
    """byte strings the cells may stand for on this path: every combination of up to `per`
    representatives of each cell that agrees with the recorded relations between cells"""
    names = []
    for c in cells:
        if type(c) is tuple and c[0] == 'c' and c[1] not in names: names.append(c[1])
    for k in st.rel:
        for x in k[1:]:
            if type(x) is tuple and x[0] == 'c' and x[1] not in names: names.append(x[1])
    dom = []
    for nm in names:
        b = bits_of(st.masks.get(nm, gx.FULL))
        if len(b) > per:
            pref = [x for x in b if chr(x).isalnum()]
            b = (list(b[:1]) + pref[:per - 2] + list(b[-1:]))[:per]
        dom.append(b)
    n = 0
    for vals in itertools.product(*dom):
        n += 1
        if n > cap: return
        env = dict(zip(names, vals))
        if consistent(st, env): yield env

def val(env, v):
    if type(v) is int: return v
    if type(v) is tuple and v[0] == 'c' and v[1] in env: return v[2][env[v[1]]]
    return None

def consistent(st, env):
    for k, r in st.rel.items():
        a, b = val(env, k[1]), val(env, k[2])
        if a is None or b is None: continue
        p = k[0]
        t = {'eq': a == b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}.get(p)
        if t is None:
            if p in ('slt', 'sle', 'sgt', 'sge'):
                sa = a - 256 if a > 127 and a < 256 else a; sb = b - 256 if b > 127 and b < 256 else b
                t = {'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[p]
            else: continue
        if t != r: return False
    return True

def inst(env, cells): return bytes(val(env, c) if val(env, c) is not None else 63 for c in cells)

FMT_OK = {'c', 'cxx', 'c++', 'cpp', 'minimal', 'minimal-c', 'minimal-cxx', 'minimal-c++', 'minimal-cpp', 'plugin', 'plugin-c'}
PARAM_OK = {'skip', 'create', 'read'}

def u_values(opt, n, okset, how):
    """-opt=<n arbitrary bytes>: accepted exactly for the documented values"""
    u = Unit('values')
    C = Cells(); v = C('v', n, ANY)
    files = {b'in.txt': IN}
    if how == 'opt':
        C.masks.update({c[1]: NOTNL & ~maskof(b' \t\v\f\r\\') for c in v})
        files = {b'in.txt': L('%%option %s=' % opt, v, '\nint foo(int a);\n')}
        args = ['-print-symbols', 'in.txt']
    else:
        args = [L('-%s=' % opt, v), '-print-symbols', 'in.txt']
    lab = '%s %s=<any %d bytes>' % ('%option' if how == 'opt' else 'option', opt, n)
    acc = set()
    for r in u.run(args, label=lab, cells=C, files=files, out=()):
        if type(r.code) is not int: continue
        for env in assigns(r.st, v):
            s = inst(env, v).decode('latin1'); good = s.lower() in okset
            if r.code & 0xff == 0:
                acc.add(s.lower())
                if not good: u.bad('C13', 'bad-value-accepted', gen.site_last(r), 'the undocumented value `%s\' of %s is accepted' % (gxm.vis(list(s.encode('latin1'))), opt), r, lab); break
            elif good: u.bad('C17', 'value-rejected', gen.site_last(r), 'the documented value `%s\' of %s is rejected' % (s, opt), r, lab); break
    if not u.undecided:
        for s in okset:
            if len(s) == n and s not in acc: u.bad('C17', 'value-rejected', None, 'the documented value `%s\' of %s is rejected' % (s, opt), None, lab)
    return u.result()

FLAGS = ['?', 'help', 'full-help', 'ast-all-symbols', 'force', 'ignore-options', 'line', 'no-date', 'no-pragma-once', 'print-symbols', 'separate', 'version']
ARGS = ['dump-templates', 'format', 'include', 'library', 'out', 'prefix', 'param', 'template', 'templates-path']
SHORT = ['D', 'P', 'S']

def opt_doc(s):
    """is the argument s (bytes, followed by an ordinary argument) something the help texts list"""
    s = s.decode('latin1')
    if not s.startswith('-') or s == '-' or s == '--': return True      # an input file
    body = s[2:] if s.startswith('--') else s[1:]
    if body in FLAGS: return True
    for a in ARGS:
        if body == a or body.startswith(a + '=') and len(body) > len(a) + 1: return True
    return not s.startswith('--') and body[:1] in SHORT

def u_options(n, pre):
    """an argument of `pre` and n arbitrary bytes: anything not documented is rejected"""
    u = Unit('options')
    C = Cells(); v = C('v', n, ANY)
    arg = L(pre, v)
    lab = 'argument %s<any %d bytes>' % (pre, n)
    for r in u.run([arg, 'x', '-print-symbols', 'in.txt'], label=lab, cells=C, files={b'in.txt': IN, b'x': IN}, out=None, nodate=None, fsopts=('dir',)):
        if type(r.code) is not int: continue
        # accepted exactly when no "unknown option" error ends the run
        for env in assigns(r.st, v):
            s = inst(env, arg)
            if r.code & 0xff == 0 and not opt_doc(s):
                u.bad('C17', 'undocumented-accepted', gen.site_last(r), 'the undocumented argument `%s\' is accepted' % gxm.vis(list(s)), r, lab)
                u.bad('C13', 'bad-option-accepted', gen.site_last(r), 'the undocumented argument `%s\' is accepted' % gxm.vis(list(s)), r, lab); break
    # an argument that equals a documented flag is accepted: see u_effects
    return u.result()

def u_optline(n):
    """%option <n arbitrary bytes>"""
    u = Unit('optline')
    C = Cells(); v = C('v', n, NOTNL & ~maskof(b' \t\v\f\r\\'))
    lab = '%%option <any %d bytes>' % n
    for r in u.run(['-print-symbols', 'in.txt'], label=lab, cells=C, files={b'in.txt': L('%option ', v, '\nint foo(int a);\n')}, out=()):
        if type(r.code) is not int or r.code & 0xff: continue
        for env in assigns(r.st, v):
            s = inst(env, v).decode('latin1')
            if not (s in ('line', 'no-date', 'no-pragma-once') or any(s.startswith(a + '=') and len(s) > len(a) + 1 for a in ('D', 'format', 'include', 'library', 'param', 'prefix'))):
                u.bad('C17', 'undocumented-accepted', gen.site_last(r), 'the undocumented line `%%option %s\' is accepted' % gxm.vis(list(s.encode('latin1'))), r, lab)
                u.bad('C13', 'bad-option-accepted', gen.site_last(r), 'the undocumented line `%%option %s\' is accepted' % gxm.vis(list(s.encode('latin1'))), r, lab); break
    return u.result()

# ---------------------------------------------------------------- C15
def u_nodate(args, files, nodate, kw):
    u = Unit('nodate')
    u.run(args, expect='ok', files=files, nodate=nodate, **kw)
    return u.result()

def nodate_jobs(tier):
    J = []
    F = {b'in.txt': IN, b'mix.txt': MIX, b't.x': TPL, b'o.ast': AST}
    for fmt in FORMATS:
        J.append(('nodate:%s' % fmt, u_nodate, (['-no-date', '-format=' + fmt, 'in.txt'], F, True, {})))
        J.append(('nodate:%s:option' % fmt, u_nodate, (['-format=' + fmt, '-line', '-param=create', 'mix.txt'], F, True, {})))
        J.append(('date:%s' % fmt, u_nodate, (['-format=' + fmt, 'in.txt'], F, False, {})))
        if fmt in ('c', 'c++', 'plugin'):
            o = ('o.hpp', 'o.cpp') if fmt == 'c++' else ('o.h', 'o.c')
            J.append(('nodate:%s:sep' % fmt, u_nodate, (['-no-date', '-format=' + fmt, '-separate', '-out=o.h', '-no-pragma-once', '-prefix=ab', 'in.txt'], F, True, {'out': o})))
            J.append(('date:%s:sep' % fmt, u_nodate, (['-format=' + fmt, '-separate', '-out=o.h', 'in.txt'], F, False, {'out': o})))
    J.append(('nodate:template', u_nodate, (['-no-date', '-template=t.x', 'in.txt'], F, True, {})))
    J.append(('date:template', u_nodate, (['-template=t.x', '-line', 'in.txt'], F, True, {})))
    J.append(('date:symbols', u_nodate, (['-print-symbols', 'mix.txt'], F, True, {})))
    J.append(('date:ast', u_nodate, (['-format=minimal', '-ast-all-symbols', '-no-date', '-library=ext:q', '-DX=1', 'o.ast'], F, True, {})))
    J.append(('nodate:time', u_nodate, (['-no-date', '-format=minimal', 'in.txt'], F, True, {'faults': ('time',)})))
    J.append(('date:time', u_nodate, (['-format=minimal', 'in.txt'], F, False, {'faults': ('time',)})))
    return J

# ---------------------------------------------------------------- C19
TOK = ['int', 'a', '*', '(', ')', '[', ']', ',', '...', 'struct', 'typedef', ';', '{', '}', '=', 'void', 'extern', '%option', '\n']
def u_soup(first, n, param):
    """token sequences: no invalid access, whatever the parser is given"""
    u = Unit('soup')
    T = TOK[:12] + ['{', '}']
    for t in itertools.product(T, repeat=n - len(first)):
        s = ' '.join(first + t)
        u.run(['-print-symbols', '-param=' + param, 'in.txt'], label='-param=%s  input: %s' % (param, s), files={b'in.txt': s.encode()}, out=())
    return u.result()

def u_cells(n, mask, pre, post, args, name='in.txt', extra=None):
    """input of n arbitrary bytes"""
    u = Unit('bytes')
    C = Cells(); v = C('v', n, mask)
    files = dict(extra or {}); files[name.encode()] = L(pre, v, post)
    u.run(args, label='%s  with %s = %r <%d bytes> %r' % (' '.join(args), name, pre, n, post), cells=C, files=files, out=(), maxpaths=20000)
    return u.result()

# ---------------------------------------------------------------- C12: names of the files
def stem(p):
    """a path without the extension of its last component"""
    d, f = p[:p.rfind(b'/') + 1], p[p.rfind(b'/') + 1:]
    k = f.rfind(b'.')
    return d + (f if k <= 0 or f == b'..' else f[:k])

def u_outname(pre, n, post, args, exts, force):
    """-out=<name with arbitrary bytes>: only the named file (or its two -separate forms) is touched"""
    u = Unit('outname')
    C = Cells(); v = C('v', n, ANY)
    name = L(pre, v, post)
    a = [L('-out=', name)] + args + (['-force'] if force else []) + ['in.txt']
    lab = '-out=%s<any %d bytes>%s %s' % (pre, n, post, ' '.join(a[1:]))
    for r in u.run(a, label=lab, cells=C, out=None, fsopts=('absent', 'file', 'link', 'dlink'), files={b'in.txt': IN, b't.x': TPL}):
        if type(r.code) is not int: continue
        for env in assigns(r.st, v):
            nm = inst(env, name)
            want = [] if nm == b'-' else [stem(nm) + e for e in exts] if exts else [nm]
            u.count('obligation: file names')
            got = {inst(env, list(e[1])) for e in r.events if e[0] == 'openw'}; gone = {inst(env, list(e[1])) for e in r.events if e[0] == 'remove'}
            bad = (got | gone) - set(want)
            if bad: u.bad('C12', 'unexpected-file', gen.site_last(r), 'the file `%s\' is written or removed, asked for was %s' % (gxm.vis(list(bad.pop())), ', '.join(gxm.vis(list(w)) for w in want) or 'standard output'), r, lab); break
            if gone and not force: u.bad('C12', 'removal', gen.site_last(r), '`%s\' is removed without -force' % gxm.vis(list(gone.pop())), r, lab); break
            if r.code & 0xff == 0 and set(want) - got: u.bad('C14', 'no-output', gen.site_last(r), 'exit status 0 but `%s\' was not written' % gxm.vis(list((set(want) - got).pop())), r, lab); break
            if any(e[0] == 'openw' and e[3] and e[2] != 'absent' for e in r.events): u.bad('C12', 'overwrite', gen.site_last(r), '`%s\' is opened for writing although it exists or was not checked' % gxm.vis(list(nm)), r, lab); break
    return u.result()

def outname_jobs(tier):
    J = []
    for pre, post in (('', ''), ('d/', ''), ('', '.x'), ('o.', ''), ('./o', '/p'), ('-', '')):
        for n in (1, 2) if tier == 'quick' else (1, 2, 3):
            for args, exts in ((['-format=minimal'], None), (['-template=t.x'], None), (['-format=plugin', '-separate'], [b'.h', b'.c'])):
                for force in (False, True):
                    if tier == 'quick' and exts and (force or n == 2 and pre not in ('o.', './o')): continue
                    J.append(('outname:%s*%d%s:%s:%s' % (pre, n, post, args[0], force), u_outname, (pre, n, post, args, exts, force)))
    if tier != 'quick':
        for force in (False, True): J.append(('outname:c++:%s' % force, u_outname, ('o.', 1, '', ['-format=c++', '-separate'], [b'.hpp', b'.cpp'], force)))
    return J
