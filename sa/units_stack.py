"""C23: text of any length.  The call graph of the program is searched for recursion, the patterns the
program matches for repetition without bound, and every kind of text is interpreted at two lengths:
call depth and stack objects must be the same for both and nothing may be cut off."""
import re
import gen, gx, gxm, gxre
from gen import L, Unit

AST0 = 'TranslationUnitDecl 0x1\n'
FN = AST0 + '|-FunctionDecl 0x59d98537ec48 <col:28, line:34:40> col:24 '

def words(n, w): return (w * (n // len(w) + 1))[:n]

def _k(args, text=None, want=(), files=None, ok=True, err=False):
    f = {} if text is None else {b'in.txt': text.encode()}
    for k, v in (files or {}).items(): f[k] = v.encode()
    return args, f, list(want), ok, err

PS = ['-print-symbols', 'in.txt']
def kinds():
    """name -> (length -> (arguments, files, substrings of the output, succeeds))"""
    K = {}
    K['name'] = lambda n: _k(PS, 'int ' + 'h' * n + '(int a);', ['h' * n])
    K['name-generate'] = lambda n: _k(['-format=minimal', 'in.txt'], 'int ' + 'h' * n + '(int a);', ['h' * n])
    K['type'] = lambda n: _k(PS, 't' * n + ' foo(int a);', ['t' * n + ' foo'])
    K['type-words'] = lambda n: _k(PS, 'const ' * (n // 6) + 'int foo(int a);', ['const ' * (n // 6) + 'int foo'])
    K['pointers'] = lambda n: _k(PS, 'int ' + '*' * n + 'foo(int a);', ['*' * n])
    K['parameter'] = lambda n: _k(PS, 'int foo(' + 't' * n + ' ' + 'k' * n + ');', ['t' * n, 'k' * n])
    K['parameters'] = lambda n: _k(PS, 'int foo(' + ', '.join('int a%d' % i for i in range(n // 8)) + ');', ['int a%d' % (n // 8 - 1)])
    K['parameters-created'] = lambda n: _k(['-param=create'] + PS, 'int foo(' + ', '.join(['int'] * (n // 8)) + ');', ['foo'])
    K['array'] = lambda n: _k(PS, 'int foo(int a[' + 'N' * n + ']);', ['N' * n])
    K['brackets'] = lambda n: _k(PS, 'int foo(int a' + '[2]' * (n // 3) + ');', ['[2]' * (n // 3)])
    K['object'] = lambda n: _k(PS, 'extern ' + 't' * n + ' ' + 'o' * n + ';', ['t' * n, 'o' * n])
    K['nested'] = lambda n: _k(PS, 'int foo(int (*h)(' + 'int (*)(' * (n // 8) + 'int' + ')' * (n // 8) + '));', ['(*h)'])
    K['parentheses'] = lambda n: _k(PS, 'int foo(int ' + '(' * (n // 8) + 'a' + ')' * (n // 8) + ');', ['foo'], ok=None)
    K['line-of-declarations'] = lambda n: _k(PS, ''.join('int f%d(int a); ' % i for i in range(n // 16)), ['f%d' % (n // 16 - 1)])
    K['skipped-block'] = lambda n: _k(PS, 'struct ' + 'x' * n + ' { int a; };\nint foo(int a);', ['foo'])
    K['nested-blocks'] = lambda n: _k(PS, 'struct x ' + '{' * (n // 2) + 'int a;' + '}' * (n // 2) + ';\nint foo(int a);', ['foo'])
    K['attribute'] = lambda n: _k(PS, '__attribute__((' + 'a' * n + ')) int foo(int a);', ['foo'], ok=None)
    K['attribute-nested'] = lambda n: _k(PS, '__attribute__((' + '(' * (n // 8) + ')' * (n // 8) + ')) int foo(int a);', ['foo'], ok=None)
    K['comment'] = lambda n: _k(PS, '/*' + words(n, ' x* ') + '*/ int foo(int a);', ['foo'])
    K['line-comment'] = lambda n: _k(PS, '//' + words(n, ' x* ') + '\nint foo(int a);', ['foo'])
    K['blank'] = lambda n: _k(PS, ' ' * n + 'int' + '\n' * min(n, 600) + 'foo(int a);', ['foo'])
    K['preprocessor'] = lambda n: _k(PS, '#define X ' + words(n, 'y+') + '\nint foo(int a);', ['foo'])
    K['continued'] = lambda n: _k(PS, '#define X ' + '\\\n' * (n // 2) + '\nint foo(int a);', ['foo'])
    K['option-line'] = lambda n: _k(['-format=minimal', 'in.txt'], '%option library=' + 'l' * n + ' prefix=' + 'p' * n + '\nint foo(int a);', ['l' * n, 'p' * n])
    K['option-include'] = lambda n: _k(['-format=minimal', 'in.txt'], '%option include=' + 'i' * n + '.h\nint foo(int a);', ['i' * n])
    K['ast-name'] = lambda n: _k(['-ast-all-symbols'] + PS, FN + 'h' * n + " 'int (int)'\n", ['h' * n])
    K['ast-type'] = lambda n: _k(['-ast-all-symbols'] + PS, FN + "foo '" + 't' * n + " (" + 'u' * n + ")'\n", ['t' * n, 'u' * n])
    K['ast-pointers'] = lambda n: _k(['-ast-all-symbols'] + PS, FN + "foo 'int " + '*' * n + "(int)'\n", ['*' * n])
    K['ast-words'] = lambda n: _k(['-ast-all-symbols'] + PS, FN + "foo '" + 'const ' * (n // 6) + "int (int)'\n", ['foo'])
    K['ast-parameters'] = lambda n: _k(['-ast-all-symbols'] + PS, FN + "foo 'int (" + ', '.join(['int'] * (n // 8)) + ")'\n" + ''.join("| %s-ParmVarDecl 0x59d98537ed80 <col:2> col:3 p%d 'int'\n" % ('`' if i == n // 8 - 1 else '|', i) for i in range(n // 8)), ['foo'])
    K['ast-parameter'] = lambda n: _k(['-ast-all-symbols', '-param=read', '-format=minimal', 'in.txt'], FN + "foo 'int (int)'\n| `-ParmVarDecl 0x59d98537ed80 <col:2> col:3 " + 'k' * n + " '" + 't' * n + "'\n", ['t' * n])
    K['ast-location'] = lambda n: _k(['-ast-all-symbols'] + PS, AST0 + '|-FunctionDecl 0x59d98537ec48 <' + '/d' * (n // 2) + "/x.h:3:4, line:34:40> col:24 foo 'int (int)'\n", ['foo'])
    K['ast-nested'] = lambda n: _k(['-ast-all-symbols'] + PS, FN + "foo 'int (int)'\n" + ''.join('| %s`-X 0x1 y\n' % ('  ' * i) for i in range(n // 16)) + "|-VarDecl 0x59d98537ec48 <col:28> col:24 obj 'int' extern\n", ['foo', 'obj'])
    K['ast-object'] = lambda n: _k(['-ast-all-symbols'] + PS, AST0 + '|-VarDecl 0x59d98537ec48 <col:28> col:24 ' + 'o' * n + " '" + 't' * n + "' extern\n", ['o' * n, 't' * n])
    K['ast-object-array'] = lambda n: _k(['-ast-all-symbols'] + PS, AST0 + '|-VarDecl 0x59d98537ec48 <col:28> col:24 ' + "obj 'int" + '[3]' * (n // 3) + "' extern\n", ['obj'])
    K['ast-noise'] = lambda n: _k(['-ast-all-symbols'] + PS, AST0 + '|-TypedefDecl ' + words(n, "x 'y' ") + '\n' + FN.split('\n')[1] + "foo 'int (int)'\n", ['foo'])
    M = ['-ast-all-symbols', '-format=minimal', 'in.txt']
    for ph in ('type', 'args', 'func_symbol', 'return', 'sym_type', 'symbol', 'param_names'):
        K['ends-type-' + ph] = lambda n, ph=ph: _k(M, FN + "foo 'int%%" + ph + "%% (int)'\n", [], ok=None)
        K['ends-parameter-' + ph] = lambda n, ph=ph: _k(M, FN + "foo 'int (int)'\n| `-ParmVarDecl 0x59d98537ed80 <col:2> col:3 k '%%" + ph + "%%'\n", [], ok=None)
    for ph in ('obj_type', 'obj_symbol', 'sym_type'):
        K['ends-object-' + ph] = lambda n, ph=ph: _k(M, AST0 + "|-VarDecl 0x59d98537ec48 <col:28> col:24 obj '%%" + ph + "%%' extern\n", [], ok=None)
    T = ['-template=t.x', 'in.txt']
    def tpl(make, want, args=T, inp='int foo(int a);\n', ok=True):
        return lambda n: _k(args, inp, [want(n)] if want else [], {b't.x': make(n)}, ok)
    K['template-text'] = tpl(lambda n: words(n, 'some_text + ') + '\n', lambda n: words(n, 'some_text + ').rstrip())
    K['template-word'] = tpl(lambda n: 'x' * n + '\n', lambda n: 'x' * n)
    K['template-prefix'] = tpl(lambda n: words(n, 'gdo_x ') + 'z\n', lambda n: words(n, 'gdo_x ') + 'z')
    K['template-prefix-changed'] = tpl(lambda n: 'gdo_x ' * (n // 6) + 'z\n', lambda n: 'q_x ' * (n // 6) + 'z', ['-prefix=q'] + T)
    K['template-prefix-upper'] = tpl(lambda n: 'GDO_X ' * (n // 6) + 'z\n', lambda n: 'Q_X ' * (n // 6) + 'z', ['-prefix=q'] + T)
    K['template-underscores'] = tpl(lambda n: '_' * n + 'gdo_x\n', lambda n: '_' * n, ['-prefix=q'] + T)
    K['template-placeholders'] = tpl(lambda n: '%%func_symbol%% ' * (n // 16) + 'z\n', lambda n: 'foo ' * (n // 16) + 'z')
    K['template-percent'] = tpl(lambda n: '%' * n + '\n', None, ok=None)
    K['template-spaces'] = tpl(lambda n: ' ' * n + 'z\n', lambda n: ' ' * n + 'z')
    K['template-loop'] = tpl(lambda n: '%%func_symbol%%' + 'x' * n + '@\n' + 'y' * n + '\n', lambda n: 'y' * n)
    K['template-param-skip'] = tpl(lambda n: '%PARAM_SKIP_REMOVE_BEGIN%\n' + 'x' * n + '\n%PARAM_SKIP_REMOVE_END%\n' + 'z' * n + '\n', lambda n: 'z' * n)
    K['template-name'] = lambda n: _k(['-template=' + 't' * n, 'in.txt'], 'int foo(int a);\n', ['foo;'], {b't' * n: '%%func_symbol%%;\n'})
    K['prefix'] = lambda n: _k(['-format=minimal', '-prefix=' + 'q' * n, 'in.txt'], 'int foo(int a);\n', ['q' * n])
    K['library'] = lambda n: _k(['-format=minimal', '-library=' + 'l' * n, 'in.txt'], 'int foo(int a);\n', ['l' * n])
    K['library-api'] = lambda n: _k(['-format=minimal', '-library=api:' + '1' * n + ':' + 'l' * n, 'in.txt'], 'int foo(int a);\n', [], ok=None)
    K['library-api-name'] = lambda n: _k(['-format=minimal', '-library=api:12:' + 'l' * n, 'in.txt'], 'int foo(int a);\n', ['l' * n])
    K['include'] = lambda n: _k(['-format=minimal', '-include=' + 'i' * n, 'in.txt'], 'int foo(int a);\n', ['i' * n])
    K['includes'] = lambda n: _k(['-format=minimal'] + ['-include=i%d.h' % i for i in range(n // 8)] + ['in.txt'], 'int foo(int a);\n', ['i%d.h' % (n // 8 - 1)])
    K['define'] = lambda n: _k(['-format=minimal', '-D' + 'D' * n + '=' + 'v' * n, 'in.txt'], 'int foo(int a);\n', ['D' * n, 'v' * n])
    K['select'] = lambda n: _k(['-S' + 'h' * n] + PS, 'int foo(int a); int ' + 'h' * n + '(int a);\n', ['h' * n])
    K['select-list'] = lambda n: _k(['-Sf%d' % i for i in range(n // 16)] + PS, ''.join('int f%d(int a);\n' % i for i in range(n // 16)), ['f%d' % (n // 16 - 1)])
    K['select-prefix'] = lambda n: _k(['-P' + 'h' * n] + PS, 'int foo(int a); int ' + 'h' * n + 'x(int a);\n', ['h' * n])
    K['format'] = lambda n: _k(['-format=' + 'f' * n, 'in.txt'], 'int foo(int a);\n', [], ok=False)
    K['unknown-option'] = lambda n: _k(['-' + 'u' * n, 'in.txt'], 'int foo(int a);\n', ['u' * n], ok=False, err=True)
    K['input-name'] = lambda n: _k(['-print-symbols', 'i' * n], None, ['foo'], {b'i' * n: 'int foo(int a);\n'})
    K['output-name'] = lambda n: _k(['-format=minimal', '-out=' + 'o' * n + '.h', 'in.txt'], 'int foo(int a);\n', [])
    K['templates-path'] = lambda n: _k(['-format=minimal', '-templates-path=' + 'd' * n, 'in.txt'], 'int foo(int a);\n', [], ok=None)
    return K

SMALL = 6_000_000
def one(u, name, n, prop='C23'):
    args, files, want, ok, err = kinds()[name](n)
    E = u.E
    E.maxdepth = (0, None); E.maxdyn = (0, None); E.deep = []; E.rxused = {}
    lab = '%s of length %d' % (name, n)
    rs = u.run(args, lab, files=files, out=None, maxsteps=SMALL if n <= 72 else gx.Engine.MAXSTEPS)
    u.count('texts interpreted')
    if n <= 72:
        for r in u.over:      # four times the work of the slowest text of this length
            u.undecided = [x for x in u.undecided if ': budget' not in x]
            u.bad('C23', 'no-end', u.E.where(r.st), '%s: no end of the run after %d instructions' % (lab, SMALL), r, lab)
    for r in rs:
        if r.kind not in ('ret', 'exit') or type(r.code) is not int:
            u.bad('C23', 'text-breaks-run', gen.site_last(r), '%s: the run ends in %s' % (lab, r.kind), r, lab); continue
        if ok is None: continue
        if (r.code & 0xff == 0) != ok:
            u.bad('C23', 'text-refused', gen.site_last(r), '%s: %s' % (lab, 'the run fails: ' + gxm.vis(r.stderr)[:200] if ok else 'the run succeeds'), r, lab); continue
        out = bytes(c if type(c) is int else 1 for c in (r.stderr if err else r.stdout))
        for v in r.files.values() if ok and not err else (): out += bytes(c if type(c) is int else 1 for c in v)
        for w in want:
            if w.encode() not in out: u.bad('C23', 'text-cut', gen.site_last(r), '%s: the text is not in the output in full' % lab, r, lab)
    return len(rs), E.maxdepth[0], E.maxdyn, list(E.deep), dict(E.rxused)

def where_fn(f): return (f.dem.split('(')[0], f.file, f.line)

def patterns(u, used):
    for (pat, flags), w in used.items():
        u.count('pattern uses')
        if flags & (1 << 10): continue            # __polynomial: not the recursive executor
        try: ok = bounded(gxre.compile(pat).tree)
        except gxre.Unsupported: u.undecided.append('pattern %r' % (pat,)); continue
        if not ok:
            u.bad('C23', 'pattern-without-bound', w, 'the pattern %s repeats without bound: the library\'s matcher recurses once per repetition, so its stack grows with the text' % pat.decode('latin1'))

def bounded(tree):
    for op, av in tree:
        s = str(op)
        if s in ('MAX_REPEAT', 'MIN_REPEAT'):
            if av[1] is gxre.C.MAXREPEAT or not bounded(av[2]): return False
        elif s == 'SUBPATTERN':
            if not bounded(av[-1]): return False
        elif s == 'BRANCH':
            if not all(bounded(a) for a in av[1]): return False
    return True

def u_growth(name, a=72, b=576):
    u = Unit('text:' + name)
    r0 = one(u, name, a); r1 = one(u, name, b)
    patterns(u, r0[4]); patterns(u, r1[4])
    if r0[0] and r1[0]:
        u.count('depth comparisons')
        if r1[1] > r0[1] + 12:
            prog = [f for f in r1[3] if not f.system]
            cnt = {}
            for f in r1[3]: cnt[f.name] = cnt.get(f.name, 0) + 1
            rec = max((f for f in r1[3] if cnt[f.name] > 1), key=lambda f: (not f.system, cnt[f.name]), default=prog[-1])
            u.bad('C23', 'depth-grows', where_fn(rec), '%s: calls nest %d deep for a text of %d characters and %d deep for %d' % (name, r0[1], a, r1[1], b))
        if r1[2][0] > r0[2][0]:
            u.bad('C23', 'stack-object-grows', r1[2][1], '%s: a stack object takes %d bytes for a text of %d characters and %d for %d' % (name, r0[2][0], a, r1[2][0], b))
    return u.result()

def u_length(name, n):
    u = Unit('length:%s:%d' % (name, n))
    one(u, name, n)
    return u.result()

# ---------------------------------------------------------------- call graph
def sccs(G):
    idx = {}; low = {}; st = []; on = set(); out = []; n = 0
    for r in list(G):
        if r in idx: continue
        work = [(r, iter(G.get(r, ())))]; idx[r] = low[r] = n; n += 1; st.append(r); on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n; n += 1; st.append(w); on.add(w); work.append((w, iter(G.get(w, ())))); break
                elif w in on: low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop(); on.discard(w); c.append(w)
                        if w == v: break
                    out.append(c)
    return out

def fold(i, val):
    """value of an integer instruction under constant parameters, or None"""
    o = [val(x) for x in i['ops'] if x[0] in 'vi']
    if len(o) != len(i['ops']) or None in o: return None
    op = i['op']; m = (1 << i.get('bits', 64)) - 1
    if op in ('zext', 'freeze'): return o[0] & m
    if op == 'trunc': return o[0] & m
    if op == 'sext':
        s = i.get('sbits', 64); return ((o[0] | -(o[0] >> (s - 1) & 1) << s) if o[0] >> (s - 1) & 1 else o[0]) & m
    if op == 'add': return (o[0] + o[1]) & m
    if op == 'sub': return (o[0] - o[1]) & m
    if op == 'and': return o[0] & o[1]
    if op == 'or': return o[0] | o[1]
    if op == 'xor': return (o[0] ^ o[1]) & m
    if op == 'icmp':
        b = i.get('cbits', 64); sg = lambda x: x - (1 << b) if x >> (b - 1) & 1 else x
        a, c = o; p = i['pred']
        if p[0] == 's': a, c = sg(a), sg(c)
        return int({'eq': a == c, 'ne': a != c, 'gt': a > c, 'ge': a >= c, 'lt': a < c, 'le': a <= c}[p[-2:]])
    return None

def calls_under(f, bind, inside):
    """call sites of f to functions of `inside' that can be reached when some parameters are constant: (callee, its constant parameters)"""
    vals = dict(bind); ids = {}
    for B in f.d['blocks']:
        for i in B['i']:
            if 'id' in i: ids[i['id']] = i
    def val(x, depth=0):
        if x[0] == 'i': return int(x[1]) & ((1 << x[2]) - 1)
        if x[0] != 'v': return None
        if x[1] in vals: return vals[x[1]]
        i = ids.get(x[1])
        if i is None or depth > 20 or i['op'] in ('phi', 'call', 'invoke', 'load', 'alloca'): return None
        return fold(i, lambda y: val(y, depth + 1))
    seen = {0}; todo = [0]; out = []
    while todo:
        b = todo.pop()
        for i in f.d['blocks'][b]['i']:
            if i['op'] in ('call', 'invoke') and i['callee'][0] == 'f' and i['callee'][1] in inside:
                out.append((i['callee'][1], frozenset((k, v) for k, v in ((k, val(x)) for k, x in enumerate(i.get('ops') or ()) if x[0] in 'vi') if v is not None)))
            succ = [x[1] for x in i['ops'] if x[0] == 'b'] if i.get('ops') else []
            succ += [i[k] for k in ('normal', 'unwind', 'default') if isinstance(i.get(k), int)] + [c[1] for c in i.get('cases', ())]
            if i['op'] == 'switch':
                c = val(i['cond'])
                if c is not None: succ = [dict(map(tuple, i['cases'])).get(c, i['default'])]
            if i['op'] == 'br' and len(succ) == 2 and i['ops'][0][0] != 'b':
                c = val(i['ops'][0])
                if c is not None: succ = [succ[1] if c & 1 else succ[0]]
            for s in succ:
                if s not in seen: seen.add(s); todo.append(s)
    return out

def bounded_by_constants(E, comp):
    """the functions call each other, but every chain ends because of constant arguments (f(x, true) calls f(x, false) only)"""
    G = {}; todo = [(n, frozenset()) for n in comp]; comp = set(comp)
    while todo:
        s = todo.pop()
        if s in G: continue
        if len(G) > 64: return False
        G[s] = set(calls_under(E.fns[s[0]], s[1], comp)); todo += list(G[s])
    return all(len(c) == 1 and c[0] not in G[c[0]] for c in sccs(G))

# recursion inside the C++ library that the current tree instantiates, and what bounds it
LIB = [(r'^void std::__introsort_loop<', 'depth at most twice the logarithm of the number of elements'),
       (r'^std::_Rb_tree<.*::_M_erase\(', 'depth of a balanced tree'),
       (r'std::__detail::_Compiler<', 'nesting of the pattern, a constant'),
       (r'std::__detail::_Executor<', 'length of the pattern when nothing in it repeats without bound (checked on the patterns)')]

def u_recursion():
    """no function of the program is part of a cycle of the call graph"""
    u = Unit('recursion'); E = u.E; G = {}; dyn = []; ctors = []
    for n, f in E.fns.items():
        if f.decl: continue
        u.count('functions in the call graph')
        s = G.setdefault(n, set())
        for B in f.d['blocks']:
            for i in B['i']:
                if i['op'] in ('call', 'invoke') and i['callee'][0] == 'f':
                    s.add(i['callee'][1]); u.count('call sites')
                elif i['op'] == 'alloca' and i['ops'] and i['ops'][0][0] != 'i' and not f.system: dyn.append((f, i))
    for c in sccs(G):
        if len(c) == 1 and c[0] not in G.get(c[0], ()): continue
        u.count('cycles of the call graph')
        fs = [E.fns[x] for x in c]
        own = [f for f in fs if not f.system]
        if own:
            if bounded_by_constants(E, c): u.count('cycles ended by constant arguments'); continue
            f = own[0]
            u.n['own cycles'] = u.n.get('own cycles', 0) + 1
            u.cyc = getattr(u, 'cyc', []) + [[x.dem.split('(')[0] for x in own]]
        elif not all(any(re.search(p, f.dem) for p, _ in LIB) for f in fs):
            u.undecided.append('recursion in the C++ library: ' + ', '.join(sorted(f.dem[:120] for f in fs)[:4]))
    return u, dyn

def u_cycles():
    u, dyn = u_recursion()
    for names in getattr(u, 'cyc', []):
        f = next(f for f in u.E.fns.values() if f.dem.split('(')[0] == names[0] and not f.system)
        u.bad('C23', 'recursion', where_fn(f), 'calls itself (%s): the stack grows with what it works on' % ' -> '.join(names))
    for f, i in dyn:
        u.bad('C23', 'stack-object', (f.dem.split('(')[0], i.get('file', f.file), i.get('l', f.line)), 'a stack object has a size computed at run time')
    return u.result()

LONG = ['name', 'type', 'parameter', 'comment', 'template-text', 'template-word', 'ast-type', 'ast-name', 'ast-noise', 'prefix', 'library', 'include', 'define', 'option-line', 'preprocessor', 'blank', 'array', 'library-api-name', 'template-prefix', 'object', 'ast-object', 'select']
def jobs(tier):
    J = [('cycles', u_cycles, ())]
    J += [('text:' + k, u_growth, (k,)) for k in kinds() if not k.startswith('ends-')]
    J += [('ends:' + k, u_length, (k, 72)) for k in kinds() if k.startswith('ends-')]
    for k in LONG: J.append(('length:%s:5000' % k, u_length, (k, 5000)))
    if tier != 'quick':
        for k in kinds():
            for n in (4096, 20000): J.append(('length:%s:%d' % (k, n), u_length, (k, n)))
        for k in LONG: J.append(('length:%s:70000' % k, u_length, (k, 70000)))
    return J
