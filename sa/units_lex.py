"""Scenario units of the scanner (C20): the scanner function of the generator is interpreted abstractly
on inputs with arbitrary bytes and compared, token by token, with a reference tokenizer written from
the documented input format; and the scanner's transition tables are walked in product with reference
automata, which covers inputs of every length."""
import itertools, re
import gen, gx, gxm
from gen import Unit, Cells, L
from gx import FULL, bits_of, maskof
from units_gen import consistent, val

NAMES = {-2: 'error', 258: 'AST begin', 259: 'AST declaration', 260: 'AST parameter', 261: 'option', 262: 'struct', 263: 'union', 264: 'enum', 265: 'typedef', 266: 'identifier', 267: 'other', 268: '{', 269: '}', 270: '=', 271: ';'}

# ---------------------------------------------------------------- reference
# rules of each start condition in order of priority: (name, regular expression, needs line begin, trailing context)
SPLIT = rb'\\[ \t\v\f\r]*\n'; COL = rb'\x1b\[[0-9;]*m'; BOM = rb'\xef\xbb\xbf'; SP = rb'[ \t\n\v\f\r]'
STR = rb'"(?:[^"\\\n]|\\[ \t\v\f\r]*\n|\\[^\n])*"'; CHR = STR.replace(b'"', b"'")
OC = rb'(?:' + COL + rb')?'
REF = {
    'INITIAL': [
        ('ast', rb'(?:' + BOM + rb')?' + OC + rb'TranslationUnitDecl' + OC + OC + rb' 0x[^\n]*', True, None),
        ('option-begin', rb'(?:' + BOM + rb')?%option', True, SP),
        ('line-comment', rb'/(?:' + SPLIT + rb')?/', False, None),
        ('c-comment', rb'/(?:' + SPLIT + rb')?\*', False, None),
        ('pre', rb'(?:' + BOM + rb')?' + SP + rb'*#', True, None),
        ('skip', rb'' + BOM + rb'|' + SP, False, None),
        ('skip', rb'extern', False, None), (262, rb'struct', False, None), (263, rb'union', False, None), (264, rb'enum', False, None), (265, rb'typedef', False, None),
        (266, rb'[a-zA-Z0-9_]+', False, None), (267, rb'[*,()\[\]]|\.\.\.', False, None), (268, rb'\{', False, None), (269, rb'\}', False, None), (270, rb'=', False, None), (271, rb';', False, None),
        ('illegal', rb'[^\n]', False, None)],
    'AST': [(259, OC + rb'[|`]-' + OC + OC + rb'(?:Function|Var)Decl' + OC + OC + rb' 0x[^\n]*', True, None), (260, OC + rb'[| ] [|`]-' + OC + OC + rb'ParmVarDecl' + OC + OC + rb' 0x[^\n]*', True, None), ('skip', rb'\n|[^\n]', False, None)],
    'OPTION': [('skip', SPLIT, False, None), (261, rb'[^ \t\n\v\f\r]+', False, None), ('initial', rb'\n', False, None), ('skip', rb'[^\n]', False, None)],
    'COMMENT': [('skip', SPLIT, False, None), ('initial', rb'\n', False, None), ('skip', rb'[^\n]', False, None)],
    'C_COMMENT': [('initial', rb'\*(?:' + SPLIT + rb')?/', False, None), ('skip', rb'\n|[^\n]', False, None)],
    'PRE': [('pre-comment', rb'/(?:' + SPLIT + rb')?\*', False, None), ('line-comment', rb'/(?:' + SPLIT + rb')?/', False, None), ('skip', STR + rb'|' + CHR, False, None), ('skip', SPLIT, False, None), ('initial', rb'\n', False, None), ('skip', rb'[^\n]', False, None)],
    'PRE_COMMENT': [('pre', rb'\*(?:' + SPLIT + rb')?/', False, None), ('skip', rb'\n|[^\n]', False, None)],
}
NEXT = {'option-begin': 'OPTION', 'line-comment': 'COMMENT', 'c-comment': 'C_COMMENT', 'pre': 'PRE', 'pre-comment': 'PRE_COMMENT', 'initial': 'INITIAL'}

_cre = None
def reference(s):
    """[(value, text)] up to an error or the end"""
    global _cre
    if _cre is None: _cre = {c: [(n, re.compile(x + (b'(?=' + t + b')' if t else b'')), b, t) for n, x, b, t in rs] for c, rs in REF.items()}
    out = []; pos = 0; cond = 'INITIAL'; line = 1
    while pos < len(s):
        bol = pos == 0 or s[pos - 1] == 10
        best = None
        for n, x, b, t in _cre[cond]:
            if b and not bol: continue
            m = x.match(s, pos)
            if m is None: continue
            ln = m.end() - pos + (1 if t else 0)
            if best is None or ln > best[1]: best = (n, ln, m.end())
        n, _, end = best
        txt = s[pos:end]; pos = end; line += txt.count(b'\n')
        if n in NEXT: cond = NEXT[n]
        elif n == 'ast':
            if line == 1: cond = 'AST'; out.append((258, txt))
            else: return out + [(-2, txt)]
        elif n == 'illegal': return out + [(-2, txt)]
        elif n != 'skip': out.append((n, txt))
    return out

# ---------------------------------------------------------------- interpretation of yylex
def start(P, data, masks):
    st = P.state(); st.X['files'] = {}; st.X['stdin'] = b''; st.X['faults'] = frozenset(); st.X['fsopts'] = ('absent',)
    st.masks.update(masks)
    p = st.alloc(216, 'FILE', 0); st.X[('fp', p[1])] = (list(data), 0, False, False)
    o = P.E.call('yyset_in', [p], st)
    return o[0].st

def tokens(P, st, u, lab, limit=40, maxpaths=6000):
    """[(state, [(value, text cells)], how it ended)] of every path"""
    E = P.E; out = []; work = [(st, [])]
    while work:
        st, toks = work.pop()
        for o in E.call('yylex', [], st, maxpaths=maxpaths):
            s = o.st
            if o.kind != 'ret':
                out.append((s, toks, o.kind)); continue
            v = o.val
            if type(v) is not int: out.append((s, toks, 'undecided')); continue
            if v & 0xffffffff == 0xfffffffe: v = -2
            if v == 0: out.append((s, toks, 'end')); continue
            # registers of the finished call are gone; the text is read from memory
            t = E.cstr(s, E.load(s, ('p', '@yytext', 0), 8))
            nt = toks + [(v, t)]
            if v == -2 or len(nt) >= limit: out.append((s, nt, 'error' if v == -2 else 'limit')); continue
            work.append((s, nt))
        if len(work) + len(out) > maxpaths: raise gx.Undecided('too many paths')
    return out

# bytes that the input format distinguishes
CLS = {}
for b in range(256):
    c = chr(b)
    CLS[b] = 'digit' if c in '23456789' else 'lower' if c in 'bghjkqvwz' else 'upper' if c in 'ABCEGHIJKLMNOQRSWXYZ' else 'ctl' if b < 32 and c not in '\t\n\v\f\r\x1b\0' else 'punct' if c in '!$&+-:<>?@^~' else 'high' if b > 127 and b not in (0xef, 0xbb, 0xbf) else c

def reps(mask):
    seen = {}
    for b in bits_of(mask): seen.setdefault(CLS[b], b)
    return list(seen.values())

def assigns(st, cells, cap):
    names = [c[1] for c in cells]
    dom = [reps(st.masks.get(n, FULL)) for n in names]
    tot = 1
    for d in dom: tot *= len(d)
    if tot <= cap: vals = itertools.product(*dom)
    else:
        # every representative of every cell, the others stepping through theirs
        vals = []
        for k, d in enumerate(dom):
            for n, x in enumerate(d):
                for j in range(3): vals.append(tuple(x if i == k else dom[i][(n * (i + 1) + j * 7) % len(dom[i])] for i in range(len(dom))))
    for v in vals:
        env = dict(zip(names, v))
        if consistent(st, env): yield env

def u_lex(n, mask, pre, post, cap=3000, limit=200):
    u = Unit('lex'); P = u.P
    C = Cells(); v = C('v', n, mask)
    data = L(pre, v, post)
    lab = 'input: %r <any %d bytes> %r' % (pre if len(pre) < 60 else pre[:20] + '...(%d)' % len(pre), n, post)
    try: rs = tokens(P, start(P, data, C.masks), u, lab, limit, 40000)
    except gx.Undecided as e: u.undecided.append('%s: %s' % (lab, e)); u.count('paths_undecided'); return u.result()
    u.count('scenarios')
    for st, toks, end in rs:
        u.count('abstract_paths')
        s = st.X.get(('S', '@_ZSt4cout', 0))
        where = ('yylex', gen.build.SRC + '/lex.yy.c', 0)
        if s is not None and s.data and gxm.flat(s.data):
            u.bad('C20', 'echo', where, 'input is echoed to standard output: %s' % gxm.vis(gxm.flat(s.data))[:60], None, lab); continue
        if end not in ('end', 'error', 'limit'):
            if end in ('undecided', 'budget'): u.undecided.append(lab + ': ' + end)
            else: u.bad('C20', 'scanner-stops', where, 'the scanner ends the program (%s)' % end, None, lab)
            continue
        for env in assigns(st, v, cap):
            x = bytes(val(env, c) if type(c) is tuple else c for c in data)
            want = reference(x)
            got = [(k, bytes(val(env, c) if type(c) is tuple else c for c in t)) for k, t in toks]
            u.count('obligation: token lists')
            # the scanner's text ends at a NUL byte
            w2 = [(k, t.split(b'\0')[0]) for k, t in want]
            if k_only(got) != k_only(w2) and not (end == 'limit' and k_only(got) == k_only(w2[:len(got)])):
                k = next((k for k in range(min(len(got), len(w2))) if k_only(got[k:k + 1]) != k_only(w2[k:k + 1])), min(len(got), len(w2)))
                f = lambda l: '%s `%s\'' % (NAMES.get(l[k][0], l[k][0]), gxm.vis(list(l[k][1]))[:60]) if k < len(l) else 'the end of the input'
                u.bad('C20', 'tokens', where, 'input %r: token %d is %s instead of %s' % (x[:80], k + 1, f(got), f(w2)), None, lab); break
    return u.result()

def k_only(l): return [(k, t if k != -2 else b'') for k, t in l]

CTX = [('', ''), ('', '\nint a;'), ('', '*/ a;'), ('a', 'b'), ('/', ' x*/ a\n b'), ('/*', '*/ a;'), ('/* *', '/ a;'), ('//', '\nint a;'), ('// \\', '\nint a;\nb'), ('#', '\nint a;'), ('#"', '"\n a'), ("#'", "'\n a"), ('# /', ' x\n a*/ b\n c'), ('#/*', '*/ x\n a'),
       ('%option ', '\n a'), ('%option', ' x\n a'), ('%option x', '\n a'), ('x\n', '# y\n a'), ('\xef\xbb\xbf', 'a'), ('\xef\xbb\xbf', '#\n a'), ('..', 'a'), ('struct', ' a'), ('enu', ' a'), ('exter', 'x'), ('/\\', '* a */ b'), ('/*x*\\', '/ a'), ('#x\\', '\n a'), ('%option a \\', ' b\nc'), (' ', '#a\n'), ('a ', '#a\n'),
       ('\x1b[', 'mTranslationUnitDecl 0x\n'), ('TranslationUnitDecl', ' 0x1\n|-VarDecl 0x2\n'), ('TranslationUnitDecl 0x', '|-VarDecl 0x2\n'), ('TranslationUnitDecl 0x1\n', '-VarDecl 0x2\n'), ('TranslationUnitDecl 0x1\n|-', 'VarDecl 0x2\n'), ('TranslationUnitDecl 0x1\n| |-', 'ParmVarDecl 0x2\n'), ('TranslationUnitDecl 0x1\n', ' `-ParmVarDecl 0x2'),
       ('TranslationUnitDecl 0x1\n|-Function', 'Decl 0x2 foo'), ('\n', 'TranslationUnitDecl 0x1\n')]

def u_long(kind, at, n):
    """a token that runs over the end of the scanner's buffer (any two bytes there)"""
    if kind == 'id': return u_lex(n, FULL, 'a' * (at - 1), 'b;', 400)
    if kind == 'comment': return u_lex(n, FULL, '/*' + 'x' * (at - 3), '*/b;', 400)
    if kind == 'many': return u_lex(n, FULL, ('int ' * ((at + 3) // 4))[:at - 1], 'b;', 60, 20000)
    return u_lex(n, FULL, '%option ' + 'x' * (at - 9), 'b c\nd', 400)

def lex_jobs(tier):
    J = []; Q = tier == 'quick'
    for k, (a, b) in enumerate(CTX):
        for n in (1, 2, 3): J.append(('lex:%d:%d' % (k, n), u_lex, (n, FULL, a, b)))
        if not Q and k not in (0, 1, 3): J.append(('lex:%d:4' % k, u_lex, (4, FULL, a, b, 100)))
    for kind in ('id', 'comment', 'option', 'many'):
        for at in (8192, 16384) if Q else (8190, 8191, 8192, 8193, 16382, 16383, 16384, 16385, 24576, 32768, 40000):
            if kind == 'many' and at not in (8192, 16384): continue
            J.append(('long:%s:%d' % (kind, at), u_long, (kind, at, 1 if Q or kind == 'many' else 2)))
    return J

# ---------------------------------------------------------------- product walk
class NFA:
    """Thompson automaton of the rules of one start condition; an accepting state is (rule index)"""
    def __init__(self):
        self.eps = []; self.tr = []; self.acc = {}
    def new(self):
        self.eps.append([]); self.tr.append(None); return len(self.eps) - 1
    def seq(self, items, s):
        for op, av in items: s = self.node(str(op), av, s)
        return s
    def node(self, op, av, s):
        e = None
        if op == 'LITERAL': m = 1 << av
        elif op == 'NOT_LITERAL': m = FULL & ~(1 << av)
        elif op == 'IN':
            m = 0; neg = False
            for o, a in av:
                o = str(o)
                if o == 'NEGATE': neg = True
                elif o == 'LITERAL': m |= 1 << a
                elif o == 'RANGE':
                    for b in range(a[0], a[1] + 1): m |= 1 << b
                else: raise gx.Undecided('pattern ' + o)
            if neg: m = FULL & ~m
        elif op == 'SUBPATTERN': return self.seq(av[3], s)
        elif op == 'BRANCH':
            e = self.new()
            for alt in av[1]:
                a = self.new(); self.eps[s].append(a); self.eps[self.seq(alt, a)].append(e)
            return e
        elif op == 'MAX_REPEAT':
            lo, hi, it = av
            for _ in range(lo): s = self.seq(it, s)
            if str(hi) == 'MAXREPEAT':
                a = self.new(); self.eps[s].append(a); self.eps[self.seq(it, a)].append(a); e = self.new(); self.eps[a].append(e); return e
            e = self.new(); self.eps[s].append(e)
            for _ in range(hi - lo): s = self.seq(it, s); self.eps[s].append(e)
            return e
        else: raise gx.Undecided('pattern ' + op)
        e = self.new(); self.tr[s] = (m, e) if self.tr[s] is None else None
        return e
    def close(self, ss):
        seen = set(ss); w = list(ss)
        while w:
            for t in self.eps[w.pop()]:
                if t not in seen: seen.add(t); w.append(t)
        return frozenset(seen)
    def step(self, ss, b):
        out = set()
        for s in ss:
            t = self.tr[s]
            if t and (t[0] >> b) & 1: out.add(t[1])
        return self.close(out)

def ref_nfa(cond, bol):
    import re._parser as sp
    A = NFA(); s0 = A.new()
    for k, (n, x, b, t) in enumerate(REF[cond]):
        if b and not bol: continue
        a = A.new(); A.eps[s0].append(a)
        e = A.seq(list(sp.parse(x + (t or b''))), a)
        A.acc[e] = k
    return A, A.close([s0])

def ints(g):
    i = g['init']
    if i[0] == 's': return list(bytes.fromhex(i[1]))
    if i[0] != 'agg': return None
    out = []
    for x in i[1]:
        if x[0] == 'agg': return ints({'init': x})
        out.append(x[1] - (1 << x[2]) if x[1] >> (x[2] - 1) & 1 else x[1])
    return out

ENTER = {'INITIAL': (b'', b'x;'), 'AST': (b'TranslationUnitDecl 0x1\n', b'TranslationUnitDecl 0x1\nx'), 'OPTION': (b'%option \\\n', b'%option '), 'COMMENT': (b'//\\\n', b'//'), 'C_COMMENT': (b'/*\n', b'/*'), 'PRE': (b'#\\\n', b'#'), 'PRE_COMMENT': (b'#/*\n', b'#/*')}
AFTER = (b'', b'\nq', b' q\nr', b'*/q\nr')

def concrete(P, x):
    """tokens of a concrete input, start state at its end"""
    rs = tokens(P, start(P, list(x), {}), None, '')
    if len(rs) != 1: return None, None
    st, toks, end = rs[0]
    if end not in ('end', 'error', 'limit'): return None, end
    try: ss = P.E.load(st, ('p', '@yy_start', 0), 4)
    except Exception: ss = None
    return [(k, bytes(t)) for k, t in toks], ss

def u_product(cond):
    u = Unit('lex'); P = u.P; E = P.E
    where = ('yylex', gen.build.SRC + '/lex.yy.c', 0)
    try:
        T = {n: ints(E.G['yy_' + n]) for n in ('accept', 'ec', 'meta', 'base', 'def', 'nxt', 'chk', 'rule_can_match_eol')}
    except KeyError as e:
        u.undecided.append('scanner tables in another form: ' + str(e)); u.count('tables_undecided'); return u.result()
    jam = len(T['accept']) - 1
    def nx(s, b):
        c = T['ec'][b] if b else 1
        while T['chk'][T['base'][s] + c] != s:
            s = T['def'][s]
            if s > jam: c = T['meta'][c]
        return T['nxt'][T['base'][s] + c]
    rules = REF[cond]
    for bol in (1, 0):
        pre = ENTER[cond][0 if bol else 1]
        _, ss = concrete(P, pre)
        if type(ss) is not int or ss > 2 * len(REF) + 2:
            u.undecided.append('start state of %s is not known' % cond); continue
        ss = 1 if ss == 0 else ss
        A, r0 = ref_nfa(cond, bol)
        # states from which an accepting one can be reached
        good = set(A.acc)
        while True:
            more = {s for s in range(len(A.eps)) if s not in good and (set(A.eps[s]) & good or A.tr[s] and A.tr[s][1] in good)}
            if not more: break
            good |= more
        init = (ss + bol, r0, False)
        seen = {init: b''}; work = [init]; kinds = {}; mism = None
        try:
            while work and not mism:
                nxt = []
                for node in work:
                    s, r, nl = node; w = seen[node]
                    groups = {}
                    for b in range(256):
                        t = nx(s, b); q = A.step(r, b)
                        groups.setdefault((t if t != jam else None, q & frozenset(good), nl or b == 10), []).append(b)
                    for (t, q, n2), bs in groups.items():
                        b = next((b for b in (ord('a'), ord('1'), ord(' ')) if b in bs), bs[-1])
                        w2 = w + bytes([b])
                        u.count('obligation: transitions of the scanner automaton', len(bs))
                        ra = [A.acc[x] for x in q if x in A.acc]; ra = rules[min(ra)][0] if ra else None
                        act = T['accept'][t] if t is not None else 0
                        if (act != 0) != (ra is not None) or (t is None and q):
                            mism = mism or w2; continue
                        if act:
                            # the same action must mean the same thing everywhere
                            k = kinds.setdefault(act, {}); k.setdefault(ra, w2)
                            if n2 and not T['rule_can_match_eol'][act]:
                                u.bad('C20', 'line-count', where, 'start condition %s: the rule that matches %r does not count its line ends' % (cond, w2), None, 'scanner automaton'); n2 = False
                        if t is None: continue
                        nd = (t, q, n2)
                        if nd not in seen: seen[nd] = w2; nxt.append(nd)
                work = nxt
        except IndexError:
            u.bad('C20', 'tables', where, 'start condition %s: the tables are read out of bounds' % cond, None, 'scanner automaton'); continue
        u.count('product_states', len(seen))
        # a difference of the automata, and the meaning of every action, is decided by what the scanner returns
        cand = [(w, True) for w in [mism] if w] + [(w, False) for k in kinds.values() for w in k.values()] + [(w, False) for w in seen.values()]
        found = False
        for w, must in cand:
            if cond == 'INITIAL' and bol and pre == b'' or True:
                for a in AFTER:
                    x = pre + w + a
                    got, end = concrete(P, x)
                    if got is None: u.undecided.append('%s %r' % (cond, x)); continue
                    u.count('obligation: witnesses of product states')
                    want = [(k, t.split(b'\0')[0]) for k, t in reference(x)]
                    if k_only(got) != k_only(want):
                        found = True
                        u.bad('C20', 'tokens', where, 'start condition %s: input %r gives %s instead of %s' % (cond, x, show(got), show(want)), None, 'scanner automaton'); break
            if found: break
        if mism and not found: u.undecided.append('%s: the automata differ after %r but the tokens do not' % (cond, mism))
        for act, k in kinds.items():
            if len(k) > 1 and not found: u.undecided.append('%s: action %d stands for %s' % (cond, act, sorted(map(str, k))))
    return u.result()

def show(l): return ', '.join('%s `%s\'' % (NAMES.get(k, k), gxm.vis(list(t))[:30]) for k, t in l[-3:]) or 'nothing'

def all_jobs(tier):
    return [('product:' + c, u_product, (c,)) for c in REF] + lex_jobs(tier)
