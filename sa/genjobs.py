"""Job lists of the generator properties C12-C22."""
import gen, gx
import units_gen as U, units_spec as S, units_lex as X, units_stack as K
from gx import FULL

Q = lambda tier: tier == 'quick'
FS = ('absent', 'file', 'link', 'dlink')

def ready(f):
    """the program is lowered and started once, before the jobs are forked"""
    def g(tier):
        gen.program()
        seen = set(); out = []
        for j in f(tier):
            nm = j[0]; k = 2
            while nm in seen: nm = '%s#%d' % (j[0], k); k += 1
            seen.add(nm); out.append((nm,) + tuple(j[1:]))
        return out
    return g

def relabel(func, args, frm, to):
    """a violation of another property's oracle that also breaks this property's statement"""
    r = func(*args)
    for v in r['violations']:
        if v['prop'] == frm: v['prop'], v['rule'] = to
    return r

def overwrite(tier):
    J = []
    for force in (False, True):
        for fmt in ('minimal', 'minimal-c++', 'plugin'): J.append(('overwrite:%s:%s' % (fmt, force), U.u_overwrite, (fmt, False, force, FS)))
        J.append(('overwrite:plugin:separate:%s' % force, U.u_overwrite, ('plugin', True, force, FS)))
        J.append(('overwrite:template:%s' % force, U.u_overwrite, ('c', False, force, FS, True)))
        J.append(('overwrite:template:separate:%s' % force, U.u_overwrite, ('c', True, force, FS, True)))
        for fmt in ('c', 'c++'):
            if Q(tier):
                if not force: J.append(('overwrite:%s:separate' % fmt, U.u_overwrite, (fmt, True, force, FS)))
            else:
                J.append(('overwrite:%s:%s' % (fmt, force), U.u_overwrite, (fmt, False, force, FS)))
                J.append(('overwrite:%s:separate:%s' % (fmt, force), U.u_overwrite, (fmt, True, force, FS)))
    for fmt in ('minimal', 'plugin') if Q(tier) else U.FORMATS: J.append(('stdout:' + fmt, U.u_stdout, (fmt,)))
    return J

def bad(tier): return [('bad:%d' % k, U.u_bad, (k, 8)) for k in range(8)]
def good(tier): return [('good:%d' % k, U.u_good, (k, 8)) for k in range(8)]

def values(tier):
    return [('value:%s:%s:%d' % (opt, how, n), U.u_values, (opt, n, ok, how)) for opt, ok in (('format', U.FMT_OK), ('param', U.PARAM_OK)) for how in ('arg', 'opt') for n in range(1, 14)]

def optargs(tier):
    J = []
    for n in range(0, 12 if Q(tier) else 17): J.append(('argument:-%d' % n, U.u_options, (n, '-')))
    for n in range(0, 14 if Q(tier) else 18): J.append(('argument:--%d' % n, U.u_options, (n, '--')))
    for n in range(1, 16): J.append(('option-line:%d' % n, U.u_optline, (n,)))
    return J[::-1]

AST0 = 'TranslationUnitDecl 0x1\n'
def cells(tier):
    """arbitrary bytes in every kind of input"""
    J = []; P = ['-print-symbols', 'in.txt']; A = ['-ast-all-symbols'] + P; T = ['-template=t.x', 'in.txt']; ex = {b'in.txt': U.IN}
    fn = AST0 + '|-FunctionDecl 0x59d98537ec48 <col:28, line:34:40> col:24 h_init '
    for n in (1, 2, 3) if Q(tier) else (1, 2, 3, 4):
        def a(nm, *x): J.append(('bytes:%s:%d' % (nm, n), U.u_cells, (n, FULL) + x))
        a('input', '', '', P); a('input-begin', '', 'int a;', P); a('parameters', 'int foo(', 'int a);', P); a('type', 'int a; ', 'foo(int b);', P)
        a('function-pointer', 'int (*fp)(', ');', ['-param=create'] + P); a('block', 'struct x { ', '} int b;', P); a('option-line', '%option ', '\nint a;', P); a('preprocessor', '#x', '\nint a;', P)
        if n < 3 or not Q(tier) and n < 4: a('parameters-format', 'int foo(int a', ');', ['-format=minimal', 'in.txt'])
        a('ast-type', fn + "'", "'\n", A); a('ast-name', fn[:-8], " h_init 'int ()'\n", A); a('ast-object', AST0 + "|-VarDecl 0x59d98537ec48 <col:28> col:24 h_init 'int", "' extern\n", A)
        a('ast-parameter', fn + "'int (int)'\n| `-ParmVarDecl 0x59d98537ed80 ", "'int'\n", A); a('ast-line', AST0, '\n', A)
        a('template', '', '', T, 't.x', ex); a('template-name', '%%sym', '%%\n', T, 't.x', ex); a('template-param', '%PARAM_SKIP_', '\nx\n', T, 't.x', ex); a('template-lines', '%%symbol%% @', '\nx\n', T, 't.x', ex); a('placeholder', '%%', '%%', T, 't.x', ex)
    return J

def soup(tier):
    T = U.TOK[:12] + ['{', '}']
    J = [('tokens:%s:%s' % (t, p), U.u_soup, ((t,), 3, p)) for t in T for p in ('skip', 'create')]
    if Q(tier): J += [('tokens:%s %s:create' % (t, s), U.u_soup, ((t, s), 4, 'create')) for t in ('int', 'a') for s in ('*', '(', 'a', '[')]
    else: J += [('tokens:%s %s:%s' % (t, s, p), U.u_soup, ((t, s), 4, p)) for t in T for s in T for p in ('skip', 'create', 'read')]
    return J

@ready
def c12(tier): return overwrite(tier) + U.outname_jobs(tier)
@ready
def c13(tier): return optargs(tier) + bad(tier) + good(tier) + U.fault_jobs(tier) + values(tier)
@ready
def c14(tier): return U.fault_jobs(tier) + overwrite(tier) + U.outname_jobs(tier)
@ready
def c15(tier): return U.nodate_jobs(tier)
@ready
def c16(tier): return S.select_jobs(tier)
@ready
def c17(tier): return optargs(tier) + S.option_jobs(tier) + values(tier) + good(tier)
@ready
def c18(tier): return S.format_jobs(tier, False) + S.tpl_jobs(False) + S.ext_jobs(False) + [('dump', U.u_dump, ((),))]
@ready
def c19(tier): return soup(tier) + cells(tier) + bad(tier) + good(tier) + optargs(tier)[::3] + values(tier) + S.tpl_jobs(False) + S.form_jobs(tier)[::2] + overwrite(tier)[:4] + X.lex_jobs('quick')[:30] + [(n, relabel, (f, a, 'C18', ('C19', 'external-template'))) for n, f, a in S.ext_jobs(False)]
@ready
def c20(tier): return X.all_jobs(tier)
@ready
def c21(tier): return S.form_jobs(tier) + [j for j in S.option_jobs(tier)] + bad(tier) + good(tier)
@ready
def c22(tier): return S.format_jobs(tier, True) + S.tpl_jobs(True) + S.ext_jobs(True)
@ready
def c23(tier): return K.jobs(tier)
