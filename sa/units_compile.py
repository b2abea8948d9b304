"""C10: compile witnesses.  Every generated output is given to the type checkers of clang and gcc together
with a driver whose static assertions state the exact type of every pointer, alias and API function; the
objects' symbol tables and the macros each output defines decide prefix isolation.  Nothing is executed."""
import zlib, os, re, itertools, subprocess, tempfile, collections
import build

H = os.path.join(build.VERIF, 'harness', 'c10')
W32 = os.path.join(build.VERIF, 'harness', 'win32')

# name, named prototype, nameless prototype, expected pointer type, call expression, result type
FN = [
 ('fn_void', 'void fn_void(void);', None, 'void (*)(void)', 'fn_void()', 'void'),
 ('fn_empty', 'int fn_empty();', None, 'int (*)()', 'fn_empty()', 'int'),
 ('fn_two', 'int fn_two(int a, const char *b);', 'int fn_two(int, const char *);', 'int (*)(int, const char *)', 'fn_two(1, "x")', 'int'),
 ('fn_str', 'const char *fn_str(size_t n, char buf[16], const int *const *pp);', 'const char *fn_str(size_t, char [16], const int *const *);', 'const char *(*)(size_t, char *, const int *const *)', 'fn_str(2, (char *)0, (const int *const *)0)', 'const char *'),
 ('fn_cb', 'int fn_cb(void (*cb)(int, const char *), void *data);', 'int fn_cb(void (*)(int, const char *), void *);', 'int (*)(void (*)(int, const char *), void *)', 'fn_cb((c10_cb)0, (void *)0)', 'int'),
 ('fn_ull', 'unsigned long long int fn_ull(unsigned long long int x, long double y, unsigned z);', 'unsigned long long int fn_ull(unsigned long long int, long double, unsigned);', 'unsigned long long (*)(unsigned long long, long double, unsigned)', 'fn_ull(1, 2, 3)', 'unsigned long long'),
 ('fn_st', 'const struct c10_st *fn_st(struct c10_st s, const struct c10_st *const p, enum c10_en e, union c10_un u);', 'const struct c10_st *fn_st(struct c10_st, const struct c10_st *const, enum c10_en, union c10_un);', 'const struct c10_st *(*)(struct c10_st, const struct c10_st *, enum c10_en, union c10_un)', 'fn_st(c10_s, &c10_s, C10_A, c10_u)', 'const struct c10_st *'),
 ('fn_retp', 'void *fn_retp(void *p);', 'void *fn_retp(void *);', 'void *(*)(void *)', 'fn_retp((void *)0)', 'void *'),
]
VA = [
 ('fn_va', 'int fn_va(FILE *fp, const char *fmt, ...);', 'int fn_va(FILE *, const char *, ...);', 'int (*)(FILE *, const char *, ...)', 'fn_va(stdout, "%d", 1)', 'int'),
 ('fn_vv', 'void fn_vv(int n, ...);', 'void fn_vv(int, ...);', 'void (*)(int, ...)', 'fn_vv(1, 2, 3)', 'void'),
]
OB = [
 ('ob_int', 'int ob_int;', None, 'int *', '(ob_int) = 3', 'int'),
 ('ob_str', 'extern const char *ob_str;', None, 'const char **', '(ob_str) = "x"', 'const char *'),
 ('ob_cst', 'extern const unsigned long ob_cst;', None, 'const unsigned long *', '(ob_cst) + 1', 'unsigned long'),
 ('ob_st', 'c10_t ob_st;', None, 'struct c10_st *', '(ob_st).i', 'int'),
 ('ob_arr', 'int ob_arr[4];', None, 'int (*)[4]', '(ob_arr)[1]', 'int'),
 ('ob_fp', 'int (*ob_fp)(int, char *);', None, 'int (**)(int, char *)', '(ob_fp)(1, (char *)0)', 'int'),
]
SETS = {'mixed': FN + OB, 'variadic': FN[:3] + VA + OB[:1], 'functions': FN, 'objects': OB, 'one': FN[2:3], 'oneobj': OB[:1]}

def protos(names, style):
    out = []
    for n in names:
        p = n[1] if style == 'named' or n[2] is None else n[2]
        out.append(p)
    return '\n'.join(out) + '\n'

Cfg = collections.namedtuple('Cfg', 'fmt pset style param sep pfx once lib macros lang plat')

MACROS = {
 'plain': [], 'static': ['STATIC'], 'noalias': ['DISABLE_ALIASING'], 'nowarn': ['DISABLE_WARNINGS'], 'flags': ['DEFAULT_FLAGS=(RTLD_NOW|RTLD_GLOBAL)'],
 'deflib': ['DEFAULT_LIB="libdef.so"'], 'wrap': ['WRAP_FUNCTIONS'], 'wrapnoalias': ['WRAP_FUNCTIONS', 'DISABLE_ALIASING'],
 'wrapvis': ['WRAP_FUNCTIONS', 'WRAP_VISIBILITY=__attribute__((visibility("default")))', 'DISABLE_WARNINGS'],
 'wrapstatic': ['WRAP_FUNCTIONS', 'STATIC'], 'hook': ['WRAP_FUNCTIONS', 'HOOK_fn_two(...)=(void)(a,b)', 'HOOK_fn_void(...)=(void)0'],
 'auto': ['ENABLE_AUTOLOAD', 'DEFAULT_LIB="libdef.so"'], 'autolazy': ['ENABLE_AUTOLOAD_LAZY', 'DEFAULT_LIB="libdef.so"'],
 'autoboth': ['ENABLE_AUTOLOAD', 'ENABLE_AUTOLOAD_LAZY', 'WRAP_FUNCTIONS', 'DEFAULT_LIB="libdef.so"'],
 'autovis': ['ENABLE_AUTOLOAD', 'DEFAULT_LIB="libdef.so"', 'WRAP_VISIBILITY=extern', 'DISABLE_WARNINGS'], 'autostatic': ['ENABLE_AUTOLOAD_LAZY', 'STATIC', 'DEFAULT_LIB="libdef.so"'],
 'autowarn': ['ENABLE_AUTOLOAD', 'DEFAULT_LIB="libdef.so"', 'WRAP_VISIBILITY=extern'],
}
WRAPPING = {m for m, d in MACROS.items() if any(x.startswith(('WRAP_FUNCTIONS', 'ENABLE_AUTOLOAD')) for x in d)}
LIBS = {'none': [], 'plain': ['-library=libfoo.so'], 'quoted': ['-library="libfoo.so"'], 'nq': ['-library=nq:C10_LIB'], 'ext': ['-library=ext:foo'], 'api': ['-library=api:2:foo']}
CSTD = ['gnu99', 'gnu11', 'gnu17', 'gnu2x', 'c99', 'c11', 'as-c++11', 'as-c++17', 'as-c++20']
XSTD = ['c++11', 'c++14', 'c++17', 'c++20', 'c++23', 'gnu++17']
PLAT = {'gnu': ['-D_GNU_SOURCE'], 'plain': [], 'features': ['-DHAVE_FEATURES_H'], 'win': ['-D_WIN32'], 'winu': ['-D_WIN32', '-D_UNICODE', '-DUNICODE'], 'winconv': ['-D_WIN32', '-DGDO_CONVERT_FILENAME', '-D_DEBUG'],
        'winbox': ['-D_WIN32', '-DGDO_USE_MESSAGE_BOX'], 'winboxu': ['-D_WIN32', '-D_UNICODE', '-DUNICODE', '-DGDO_USE_MESSAGE_BOX'], 'windl': ['-D_WIN32', '-DGDO_USE_DLOPEN']}
PFX = {'gdo': None, 'bar': 'bar', 'Mixed1': 'Mixed1', 'a_b': 'a_b'}

def valid(c):
    if c.style == 'nameless' and c.param == 'read' or c.style == 'named' and c.param == 'create': return False
    if c.param == 'skip' and c.macros in WRAPPING and c.fmt in ('c', 'c++'): return False     # documented #error
    if c.fmt in ('minimal', 'minimal-c++', 'plugin') and c.macros not in ('plain', 'static', 'noalias', 'nowarn', 'flags', 'deflib'): return False
    if c.fmt in ('c++', 'minimal-c++') and 'static' in c.macros: return False
    if c.fmt in ('minimal', 'minimal-c++') and (c.sep or c.macros == 'flags'): return False
    if c.macros == 'hook' and (c.pset not in ('mixed', 'functions', 'variadic') or c.param == 'create'): return False
    cx = c.fmt in ('c++', 'minimal-c++')
    if cx != (c.lang in XSTD): return False
    if 'static' in c.macros and c.lang.startswith('as-'): return False                        # documented for C only
    if c.sep and 'static' in c.macros: return False                                          # static linkage makes sense in a single file only
    if c.plat.startswith('win') and c.lib == 'nq' and c.plat.endswith('u'): return False     # nq: text is the user's responsibility
    if 'u' in c.plat[3:] and c.macros in WRAPPING | {'deflib'} and c.plat.startswith('win') and any(x.startswith('DEFAULT_LIB') for x in MACROS[c.macros]): return False  # narrow literal given for a wide build
    if c.lang in ('c99', 'c11') and c.plat != 'gnu': return False            # strict ISO C hides the POSIX functions the templates need
    return True

AXES = {
 'fmt': ['c', 'plugin', 'minimal'], 'pset': list(SETS), 'style': ['named', 'nameless'], 'param': ['read', 'skip', 'create'], 'sep': [False, True], 'pfx': list(PFX),
 'once': [True, False], 'lib': list(LIBS), 'macros': list(MACROS), 'lang': CSTD, 'plat': list(PLAT)}
XAXES = dict(AXES, fmt=['c++', 'minimal-c++'], lang=XSTD)

def cover(axes, strength, seed=1):
    """greedy deterministic covering array of the valid configurations"""
    import random
    rnd = random.Random(seed); keys = list(Cfg._fields)
    need = set()
    for ks in itertools.combinations(range(len(keys)), strength):
        for vs in itertools.product(*[axes[keys[k]] for k in ks]): need.add(tuple(zip(ks, vs)))
    out = []
    pending = sorted(need, key=repr); rnd.shuffle(pending)
    covered = set()
    for t in pending:
        if t in covered: continue
        best = None
        for _ in range(24):
            v = [None] * len(keys)
            for k, x in t: v[k] = x
            for k in range(len(keys)):
                if v[k] is None: v[k] = rnd.choice(axes[keys[k]])
            c = Cfg(*v)
            if not valid(c): continue
            items = list(enumerate(v))
            gain = sum(1 for s in itertools.combinations(items, strength) if s not in covered)
            if best is None or gain > best[0]: best = (gain, c)
        if best is None: continue     # infeasible
        c = best[1]; out.append(c)
        for s in itertools.combinations(list(enumerate(c)), strength): covered.add(s)
    return out

API = {
 'c': [('load_lib_name', 'bool (*)(const {c} *)'), ('load_lib_name_and_symbols', 'bool (*)(const {c} *)'), ('load_lib_args', 'bool (*)(const {c} *, int, bool)'), ('lib_is_loaded', 'bool (*)(void)'),
       ('free_lib', 'bool (*)(void)'), ('force_free_lib', 'void (*)(void)'), ('enable_autorelease', 'bool (*)(void)'), ('load_all_symbols', 'bool (*)(void)'), ('load_symbol', 'bool (*)(int)'),
       ('load_symbol_name', 'bool (*)(const char *)'), ('all_symbols_loaded', 'bool (*)(void)'), ('no_symbols_loaded', 'bool (*)(void)'), ('any_symbol_loaded', 'bool (*)(void)'),
       ('last_error', 'const {c} *(*)(void)'), ('library_path', 'const {c} *(*)(void)')],
 'plugin': [('load_plugins', '{p}_plugin_t *(*)(const {c} **, size_t)'), ('release_plugins', 'void (*)({p}_plugin_t *)')],
 'minimal': [('free_library', 'void (*)(void)'), ('load_library_and_symbols', 'const char *(*)(const char *)')],
}
# the Windows branches are type-checked on a Linux host: include the system headers first, then hide the host
WINPRE = '#include <stddef.h>\n#include <string.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <stdbool.h>\n#include <wchar.h>\n#include <limits.h>\n#include <dlfcn.h>\n#include <errno.h>\n#ifdef __cplusplus\n#include <string>\n#include <iostream>\n#include <cstring>\n#endif\n#undef __GLIBC__\n#undef __linux__\n'
def prelude(c): return (WINPRE if c.plat.startswith('win') else '') + '#define C10_LIB "libnq.so"\n'
def driver(c, header, extra=''):
    lo = (PFX[c.pfx] or 'gdo').lower(); up = lo.upper()
    cx = c.lang in XSTD or c.lang.startswith('as-')
    names = SETS[c.pset]
    o = []
    o.append(prelude(c))
    o += ['#%s' % d for d in defines(c, up)]
    o.append('#include <stdio.h>\n#include "%s"\n#include "%s"\n#include "%s"' % (os.path.join(H, 'types.h'), header, header) + extra)
    if cx:
        o.append('#include <type_traits>\n#define C10_SAME(e, ...) static_assert(std::is_same<decltype(e), __VA_ARGS__>::value, "type of " #e)')
        o.append('#define C10_CALL(e, ...) static_assert(std::is_same<std::decay<decltype(e)>::type, __VA_ARGS__>::value, "type of " #e)')
    else:
        o.append('#include <stdbool.h>\n#define C10_SAME(e, ...) _Static_assert(__builtin_types_compatible_p(__typeof__(e), __VA_ARGS__), "type of " #e)\n#define C10_CALL(e, ...) C10_SAME(e, __VA_ARGS__)')
    o.append('static struct c10_st c10_s; static union c10_un c10_u;\nvoid c10_use(void);\nvoid c10_use(void) {\n    (void)c10_s; (void)c10_u;')
    ch = 'wchar_t' if c.plat in ('winu', 'winboxu') else 'char'
    for n in names:
        t = n[3]
        if cx: t = t.replace('()', '(void)')
        if c.fmt == 'c': e = '%s_RAWPTR_%s' % (up, n[0])
        elif c.fmt == 'c++': e = '%s::%s_PTR_%s' % (lo, up, n[0])
        elif c.fmt == 'minimal': e = '%s_hndl.%s_PTR_%s' % (lo, up, n[0])
        elif c.fmt == 'minimal-c++': e = '%s::%s_PTR_%s' % (lo, up, n[0])
        else: e = '((%s_handle_t *)0)->ptr.%s' % (lo, n[0])
        o.append('    C10_SAME(%s, %s);' % (e, t))
    alias = c.fmt != 'plugin' and c.macros not in ('noalias', 'wrapnoalias')
    for n in names:
        call = None
        if alias: call = n[4]
        elif c.macros == 'wrapnoalias' and n[0].startswith('fn_'): call = n[4].replace(n[0], up + '_WRAP_' + n[0], 1)
        if call is None: continue
        o.append('    (void)(%s);' % call)
        if n[5] != 'void':
            o.append('    C10_CALL(%s, %s);' % (call, n[5]))
    if c.fmt in API:
        for f, t in API[c.fmt]: o.append('    C10_SAME(&%s_%s, %s);  (void)&%s_%s;' % (lo, f, t.format(c=ch, p=lo), lo, f))
    if c.fmt == 'c':
        o.append('#ifdef %s_DEFAULT_LIB\n    C10_SAME(&%s_load_lib, bool (*)(void)); C10_SAME(&%s_load_lib_and_symbols, bool (*)(void)); (void)&%s_load_lib; (void)&%s_load_lib_and_symbols;\n#endif' % (up, lo, lo, lo, lo))
    if c.fmt in ('c', 'c++'):
        for n in names: o.append('    (void)%s_LOAD_%s;' % (up, n[0]))
        o.append('#ifndef %s_HAS_NONE\n    { %schar c10_enum[%s_ENUM_LAST == %d ? 1 : -1]; (void)c10_enum; }\n#endif' % (up, '', up, len(names)))
    if c.fmt == 'c++':
        o.append('''    P::dl d("x"); P::dl e; const P::dl &k = d;
    C10_SAME(d.load(std::string("x"), 0, true), bool); C10_SAME(d.load("x"), bool); C10_SAME(d.load(), bool); C10_SAME(d.load_lib_and_symbols(), bool); C10_SAME(P::dl::lib_loaded(), bool); C10_SAME(k.flags(), int);
    C10_SAME(d.load_all_symbols(), bool); C10_SAME(d.load_symbol(1), bool); C10_SAME(d.load_symbol("x"), bool); C10_SAME(k.all_symbols_loaded(), bool); C10_SAME(k.no_symbols_loaded(), bool);
    C10_SAME(k.any_symbol_loaded(), bool); C10_SAME(d.free(), bool); C10_SAME(d.free(true), bool); d.free_lib_in_dtor(true); C10_SAME(k.free_lib_in_dtor(), bool); C10_SAME(d.library_path(), std::string);
    C10_SAME(d.filename(), std::string); C10_SAME(d.error(), std::string); C10_SAME(P::make_libname(std::string("x"), 1), std::string); (void)P::default_flags; (void)P::libext;
    d.load(std::string("x"), 0, true); d.load(); d.load_lib_and_symbols(); P::dl::lib_loaded(); d.load_all_symbols(); d.load_symbol(1); d.load_symbol("x"); k.all_symbols_loaded(); k.no_symbols_loaded(); k.any_symbol_loaded(); d.free(true); k.flags();
    k.free_lib_in_dtor(); d.library_path(); d.filename(); d.error(); P::make_libname(std::string("x"), 1);'''.replace('P::', lo + '::'))
        if c.plat.startswith('win') and c.plat != 'windl':
            o.append('''    C10_SAME(d.load(std::wstring(L"x")), bool); C10_SAME(d.load(true, std::string("x")), bool); C10_SAME(d.library_path_w(), std::wstring); C10_SAME(d.filename_w(), std::wstring); C10_SAME(d.error_w(), std::wstring);
    P::dl w(std::wstring(L"x")); P::dl v(true, "x"); w.load(std::wstring(L"x")); w.load(true, std::string("x")); w.library_path_w(); w.filename_w(); w.error_w(); P::make_libname(std::wstring(L"x"), 1);'''.replace('P::', lo + '::'))
        if c.macros in WRAPPING:
            o.append('    P::dl::message_callback(nullptr); C10_SAME(P::dl::message_callback(), void (*)(const char *));'.replace('P::', lo + '::'))
    if c.fmt == 'minimal-c++':
        o.append('    try { P::load_library_and_symbols("x"); } catch (const P::LibraryError &e) { (void)e.what(); } catch (const P::SymbolError &e) { (void)e.what(); }\n    P::free_library(); (void)P::handle;'.replace('P::', lo + '::'))
    o.append('}')
    return '\n'.join(o) + '\n'

def defines(c, up):
    out = []
    for d in MACROS[c.macros]:
        n, _, v = d.partition('=')
        if d.startswith('DEFAULT_LIB') and c.lib != 'none': pass       # both given: the user's macro wins
        out.append('define %s_%s %s' % (up, n, v))
    for d in PLAT[c.plat]:
        if d.startswith('-DGDO_'): out.append('define %s_%s' % (up, d[6:]))
    return out

def platflags(c):
    fl = [d for d in PLAT[c.plat] if not d.startswith('-DGDO_')]
    if c.plat.startswith('win'): fl += ['-I' + W32]
    return fl

WERR = ['-Werror=implicit-function-declaration', '-Werror=incompatible-pointer-types', '-Werror=int-conversion', '-Werror=return-type']
def cmdline(c, cc, src, d, out):
    if c.lang in XSTD: l = ['-x', 'c++', '-std=' + c.lang]
    elif c.lang.startswith('as-'): l = ['-x', 'c++', '-std=gnu++' + c.lang[6:]]
    else: l = ['-x', 'c', '-std=' + c.lang]
    werr = WERR if 'c++' not in l else ['-Werror=return-type']
    if cc == 'clang': werr = werr + ['-Werror=extra-tokens', '-Werror=macro-redefined'] + (['-Werror=implicit-int'] if 'c++' not in l else [])
    return [cc] + l + ['-O1' if cc == 'gcc' and 'c++' not in l else '-O0', '-I' + d] + platflags(c) + werr + ['-c', src, '-o', out]

# names of the output file; the include guard is made from them
NAMES = ['gen', 'a+b', 'lib@2.3', 'x y', '1st', 'a-b_c', 't\u00eate', '(c)', 'a$b', '~', 'A.B', 'no!']
def gen(c, d, infile, name='gen'):
    cx = c.fmt in ('c++', 'minimal-c++')
    if not c.once and name == 'gen': name = NAMES[zlib.crc32(repr(c).encode()) % len(NAMES)]
    out = os.path.join(d, name + ('.hpp' if cx else '.h'))
    a = ['-out=' + out, '-format=' + c.fmt, '-no-date', '-include=<stdio.h>', '-include=' + os.path.join(H, 'types.h'), '-param=' + c.param] + LIBS[c.lib]
    if PFX[c.pfx]: a.append('-prefix=' + PFX[c.pfx])
    if c.sep: a.append('-separate')
    if not c.once: a.append('-no-pragma-once')
    p = build.gendlopen(a + [infile], ok=False)
    if p.returncode: return None, p.stderr.decode('utf8', 'replace')
    files = [out]
    if c.sep: files.append(os.path.join(d, name + ('.cpp' if cx else '.c')))
    return files, None

def ident(c): return '%s/%s/%s/param=%s/%s/prefix=%s/%s/lib=%s/%s/%s/%s' % (c.fmt, c.pset, c.style, c.param, 'separate' if c.sep else 'single', c.pfx, 'once' if c.once else 'guard', c.lib, c.macros, c.lang, c.plat)

def first_error(text, d):
    for l in text.splitlines():
        if re.search(r'\b(fatal )?error: ', l): return l.replace(d + '/', '')
    return text.strip().splitlines()[-1] if text.strip() else '?'

def loc(msg):
    m = re.match(r'(?:In file included from )?([^:\s]+):(\d+)', msg)
    return (m.group(1), int(m.group(2))) if m else ('<generated>', 0)

def viol(rule, msg, c, extra=None):
    f, l = loc(msg)
    return {'prop': 'C10', 'rule': rule, 'function': c.fmt if isinstance(c, Cfg) else str(c), 'file': f, 'line': l, 'message': msg[:400], 'trace': [ident(c) if isinstance(c, Cfg) else str(c)] + (extra or [])}

def symbols(obj):
    und, de = set(), {}
    for l in build.must(['nm', '-P', obj]).decode().splitlines():
        p = l.split()
        if p[1] in ('U', 'w', 'v'): und.add(p[0])
        elif p[1].isupper() or p[1] == 'u': de[p[0]] = p[1]
    return und, de

def own(c, dem):
    """does an external name carry the prefix?"""
    lo = (PFX[c.pfx] or 'gdo').lower(); up = lo.upper()
    return re.search(r'(^|[^:\w])_?(%s|%s)_' % (lo, up), dem) or re.search(r'(^|[^:\w])%s::' % lo, dem) or re.match(r'(vtable|typeinfo|typeinfo name|VTT|guard variable|construction vtable) for (.* )?%s::' % lo, dem)

def demangle(names):
    if not names: return {}
    o = build.must(['llvm-cxxfilt-18'], input='\n'.join(names).encode()).decode().splitlines()
    return dict(zip(names, o))

COMPAT = re.compile(r'^(RTLD_\w+|LOAD_\w+|DL_LAZY|DONT_RESOLVE_DLL_REFERENCES|_T|_countof|(DLADDR|DLINFO|DLMOPEN)_PROTOTYPE|LM_ID_NEWLM)$')

def macros_of(c, cc, src, d, files):
    """macros that the generated files define and leave defined"""
    cmd = cmdline(c, cc, src, d, '/dev/null')
    cmd = cmd[:cmd.index('-c')] + ['-E', '-dD', src]
    p = build.run(cmd)
    if p.returncode: return None
    cur = None; out = {}
    base = {os.path.basename(f) for f in files}
    for l in p.stdout.decode('utf8', 'replace').splitlines():
        m = re.match(r'# (\d+) "([^"]*)"', l)
        if m: cur = os.path.basename(m.group(2)) if m.group(2).startswith(d) else None; continue
        m = re.match(r'#define (\w+)', l)
        if m and cur in base: out[m.group(1)] = l; continue
        m = re.match(r'#undef (\w+)', l)
        if m: out.pop(m.group(1), None)
    return out

def check(c, counts, vs, funcs):
    d = tempfile.mkdtemp(dir=build.scratch())
    inf = os.path.join(d, 'in.txt'); open(inf, 'w').write(protos(SETS[c.pset], c.style))
    files, err = gen(c, d, inf)
    counts['generated outputs'] += 1
    if err is not None: vs.append(viol('not-generated', err.strip().splitlines()[0] if err.strip() else '?', c)); return
    lo = (PFX[c.pfx] or 'gdo').lower(); up = lo.upper()
    cx = c.fmt in ('c++', 'minimal-c++')
    drv = os.path.join(d, 'driver.' + ('cpp' if cx else 'c')); open(drv, 'w').write(driver(c, os.path.basename(files[0])))
    tus = [drv]
    if c.sep:
        b = os.path.join(d, 'body.' + ('cpp' if cx else 'c'))
        open(b, 'w').write(prelude(c) + ''.join('#%s\n' % x for x in defines(c, up)) + '#include "%s"\n' % os.path.basename(files[1]))
        tus.append(b)
    objs = []; bad = False
    ccs = ['clang']
    if c.pset == 'variadic' or c.macros in WRAPPING or hash_pick(c): ccs.append('gcc')
    for cc in ccs:
        os_ = []
        for t in tus:
            counts['translation units'] += 1
            o = t + '.' + cc + '.o'
            cmd = cmdline(c, cc, t, d, o)
            if cc == 'gcc' and cx: cmd[cmd.index('-c')] = '-fsyntax-only'; cmd = cmd[:-2]
            p = build.run(cmd)
            if p.returncode:
                bad = True
                vs.append(viol('compile-error', first_error(p.stderr.decode('utf8', 'replace'), d), c, [cc + ' ' + ' '.join(x.replace(d, '<generated>') for x in cmd[1:])]))
            else: os_.append(o)
        if len(os_) == len(tus) and not (cc == 'gcc' and cx): objs.append((cc, os_))
    vis = any(x.startswith('WRAP_VISIBILITY') for x in MACROS[c.macros])
    declared = {n[0] for n in SETS[c.pset]}
    for cc, os_ in objs:
        und = set(); de = {}
        per = []
        for o in os_:
            u, x = symbols(o); und |= u; per.append(x)
        allde = set().union(*[set(x) for x in per])
        dem = demangle(sorted(und | allde))
        counts['external names'] += len(und | allde)
        for n in sorted(und - allde):
            t = dem[n]
            if own(c, t) or t in declared or t.split('_')[0] in ('GDO', 'gdo'): vs.append(viol('undefined', '%s is referenced but defined nowhere' % t, c))
        if c.sep and not vis:
            for n in sorted(per[0]):
                if own(c, dem[n]) and per[0][n] not in ('V', 'W', 'u') : vs.append(viol('header-definition', 'the header defines the external symbol %s in every file that includes it' % dem[n], c))
        for n in sorted(allde):
            t = dem[n]
            if own(c, t) or t.startswith('c10_') or re.match(r'(void )?c10_', t): continue
            if vis and set(re.findall(r'\w+', t.split('(')[0])) & declared: continue
            if re.search(r'std::|__gnu|__cxa|_Unwind|operator (new|delete)|DW\.ref|^__', t) : continue
            if t in ('_gdo_noop',) and lo == 'gdo': continue
            vs.append(viol('external-name', 'external symbol %s does not carry the prefix' % t, c))
    if not bad:
        ms = macros_of(c, 'clang', drv, d, [files[0]])
        if ms is not None:
            counts['macros'] += len(ms)
            pat = re.compile(r'^_?(%s|%s)_|^_%s_' % (lo, up, up))
            for m, l in sorted(ms.items()):
                if pat.match(m) or m in declared or COMPAT.match(m): continue
                vs.append(viol('macro-name', 'macro %s does not carry the prefix' % m, c, [l]))
    counts['static assertions'] += open(drv).read().count('C10_SAME(') + open(drv).read().count('C10_CALL(')

def hash_pick(c):
    return zlib.crc32(repr(c).encode()) % 3 == 0

def run_cases(cases):
    counts = collections.Counter(); vs = []
    for c in cases:
        counts['configurations'] += 1
        if isinstance(c, Cfg): check(c, counts, vs, None)
        else: coexist(c, counts, vs)
    return {'violations': vs, 'counts': dict(counts), 'functions': []}

Pair = collections.namedtuple('Pair', 'a b lang')      # a, b: Cfg; symbols of b are renamed
def coexist(p, counts, vs):
    d = tempfile.mkdtemp(dir=build.scratch())
    heads = []; bad = False; decl = []
    for i, c in enumerate((p.a, p.b)):
        inf = os.path.join(d, 'in%d.txt' % i)
        names = SETS[c.pset]
        txt = protos(names, 'named')
        if i: txt = re.sub(r'\b(fn|ob)_', r'\1b_', txt)
        open(inf, 'w').write(txt)
        files, err = gen(c, d, inf, 'gen%d' % i)
        if err: vs.append(viol('not-generated', err.strip(), c)); return
        heads.append(os.path.basename(files[0]))
    for order in ((0, 1), (1, 0)):
        s = prelude(p.a)
        for i, c in enumerate((p.a, p.b)):
            s += ''.join('#%s\n' % x for x in defines(c, (PFX[c.pfx] or 'gdo').upper()))
        s += '#include <stdio.h>\n' + ''.join('#include "%s"\n' % heads[i] for i in order) + 'void c10_use(void);\nvoid c10_use(void) {}\n'
        src = os.path.join(d, 'both%d%d.%s' % (order + ('cpp' if p.lang.startswith(('c++', 'gnu++', 'as-')) else 'c',))); open(src, 'w').write(s)
        c = p.a._replace(lang=p.lang)
        cmd = cmdline(c, 'clang', src, d, src + '.o')
        cmd.insert(1, '-Werror=macro-redefined'); cmd[cmd.index('-c')] = '-fsyntax-only'; cmd = cmd[:-2]
        counts['translation units'] += 1; counts['header pairs'] += 1
        r = build.run(cmd)
        if r.returncode: vs.append(viol('coexistence', first_error(r.stderr.decode('utf8', 'replace'), d), '%s(%s) with %s(%s)' % (p.a.fmt, p.a.pfx, p.b.fmt, p.b.pfx), [p.lang, ident(p.a), ident(p.b)]))

def pairs():
    out = []
    base = Cfg('c', 'mixed', 'named', 'read', False, 'gdo', True, 'plain', 'plain', 'gnu17', 'gnu')
    fm = ['c', 'c++', 'plugin', 'minimal', 'minimal-c++']
    for fa in fm:
        for fb in fm:
            cxx = 'c++' in fa + fb
            for n, (pl, ma, pa) in enumerate([('gnu', 'plain', 'gdo'), ('plain', 'wrap', 'bar'), ('gnu', 'auto', 'gdo')]):
                mk = lambda f, p: base._replace(fmt=f, pfx=p, plat=pl, macros=ma if f in ('c', 'c++') else 'plain', once=(n != 1), lib=('plain', 'api', 'none')[n])
                a = mk(fa, pa); b = mk(fb, 'a_b')
                out.append(Pair(a, b, 'c++17' if cxx else ('gnu17' if n != 2 else 'as-c++17')))
    return out

def jobs(tier):
    build.generator()
    if tier == 'thorough': cs = cover(AXES, 3) + cover(XAXES, 3)
    else: cs = cover(AXES, 2) + cover(AXES, 2, 7) + cover(XAXES, 2)
    cs += pairs()
    # interleave so that every job gets a fair share of the slow C++ units
    n = 48; out = []
    for i in range(n):
        part = cs[i::n]
        if part: out.append(('matrix%02d' % i, run_cases, (part,)))
    return out
