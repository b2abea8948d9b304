"""Backtracking matcher for ECMAScript regular expressions over character cells."""
import re
try: from re import _parser as P, _constants as C
except ImportError: import sre_parse as P, sre_constants as C

class Unsupported(Exception): pass
_cache = {}

def compile(pat):
    r = _cache.get(pat)
    if r is None: r = _cache[pat] = Rx(pat)
    return r

def _translate(pat):
    """ECMAScript -> Python: `$' is the end of the text, `.' excludes CR and LF"""
    out = ''; i = 0; s = pat.decode('latin1'); cls = False
    while i < len(s):
        c = s[i]
        if c == '\\': out += s[i:i + 2]; i += 2; continue
        if cls:
            if c == ']': cls = False
            out += '\\[' if c == '[' and s[i + 1:i + 2] != ':' else c
            if c == '[' and s[i + 1:i + 2] == ':': raise Unsupported('posix class')
        elif c == '[':
            cls = True; out += c
            if s[i + 1:i + 2] == '^': out += '^'; i += 1
        elif c == '$': out += r'\Z'
        elif c == '.': out += r'[^\n\r]'
        else: out += c
        i += 1
    return out.encode('latin1')

class Rx:
    def __init__(self, pat):
        self.src = pat
        t = _translate(pat)
        try: self.py = re.compile(t)
        except re.error as e: raise Unsupported(str(e))
        self.tree = P.parse(t)
        self.ngroups = self.py.groups
        self.memo = {}

    def sub(self, text, fmt):
        k = (text, fmt)
        r = self.memo.get(k)
        if r is None:
            def rep(m):
                out = b''; i = 0
                while i < len(fmt):
                    c = fmt[i:i + 1]; d = fmt[i + 1:i + 2]
                    if c == b'$' and d == b'$': out += b'$'; i += 2
                    elif c == b'$' and d == b'&': out += m.group(0); i += 2
                    elif c == b'$' and d.isdigit():
                        g = int(d); i += 2
                        if fmt[i:i + 1].isdigit(): g = g * 10 + int(fmt[i:i + 1]); i += 1
                        if g <= self.ngroups: out += m.group(g) or b''
                    else: out += c; i += 1
                return out
            r = self.memo[k] = self.py.sub(rep, text)
        return r

    def match(self, cells, decide, search, start=0):
        """-> list of spans (group 0..n) or None; decide(cell, table) answers class membership of a character cell"""
        try: b = bytes(cells)
        except Exception: b = None
        if b is not None:
            m = self.py.search(b, start) if search else self.py.fullmatch(b, start)
            if not m: return None
            return [m.span(g) if m.span(g)[0] >= 0 else None for g in range(self.ngroups + 1)]
        n = len(cells)
        self.n = n; self.cells = cells; self.dec = decide; self.budget = 200000
        for s in range(start, n + 1) if search else (start,):
            g = [None] * (self.ngroups + 1)
            for e, gg in self.seq(list(self.tree), 0, s, tuple(g)):
                if search or e == n:
                    r = list(gg); r[0] = (s, e)
                    return r
        return None

    def test(self, pos, tab):
        c = self.cells[pos]
        self.budget -= 1
        if self.budget < 0: raise Unsupported('budget')
        if type(c) is int: return tab[c]
        return self.dec(c, tab)

    def table(self, op, av):
        k = (op, str(av))
        t = self.memo.get(k)
        if t is None:
            t = [False] * 256
            if op is C.LITERAL: t[av] = True
            elif op is C.NOT_LITERAL: t = [i != av for i in range(256)]
            elif op is C.ANY: t = [i not in (10,) for i in range(256)]
            elif op is C.IN:
                neg = False
                for o, a in av:
                    if o is C.NEGATE: neg = True
                    elif o is C.LITERAL: t[a] = True
                    elif o is C.RANGE:
                        for i in range(a[0], a[1] + 1): t[i] = True
                    elif o is C.CATEGORY:
                        f = {C.CATEGORY_DIGIT: lambda i: 48 <= i <= 57, C.CATEGORY_NOT_DIGIT: lambda i: not 48 <= i <= 57,
                             C.CATEGORY_SPACE: lambda i: i in (32, 9, 10, 11, 12, 13), C.CATEGORY_NOT_SPACE: lambda i: i not in (32, 9, 10, 11, 12, 13),
                             C.CATEGORY_WORD: lambda i: chr(i).isalnum() and i < 128 or i == 95, C.CATEGORY_NOT_WORD: lambda i: not (chr(i).isalnum() and i < 128 or i == 95)}.get(a)
                        if f is None: raise Unsupported('category')
                        for i in range(256):
                            if f(i): t[i] = True
                    else: raise Unsupported(str(o))
                if neg: t = [not x for x in t]
            else: raise Unsupported(str(op))
            self.memo[k] = t
        return t

    def seq(self, items, k, pos, g):
        if k == len(items):
            yield pos, g; return
        op, av = items[k]
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if pos < self.n and self.test(pos, self.table(op, av)):
                yield from self.seq(items, k + 1, pos + 1, g)
        elif op is C.SUBPATTERN:
            grp, sub = av[0], list(av[-1])
            for e, gg in self.seq(sub, 0, pos, g):
                if grp is not None:
                    gg = gg[:grp] + ((pos, e),) + gg[grp + 1:]
                yield from self.seq(items, k + 1, e, gg)
        elif op is C.BRANCH:
            for alt in av[1]:
                for e, gg in self.seq(list(alt), 0, pos, g):
                    yield from self.seq(items, k + 1, e, gg)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av; sub = list(sub)
            yield from self.rep(sub, lo, hi, op is C.MAX_REPEAT, 0, pos, g, items, k)
        elif op is C.AT:
            if av is C.AT_BEGINNING or av is C.AT_BEGINNING_STRING: ok = pos == 0
            elif av is C.AT_END_STRING: ok = pos == self.n
            else: raise Unsupported('anchor')
            if ok: yield from self.seq(items, k + 1, pos, g)
        else: raise Unsupported(str(op))

    def rep(self, sub, lo, hi, greedy, cnt, pos, g, items, k):
        simple = len(sub) == 1 and sub[0][0] in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN)
        if simple:
            tab = self.table(*sub[0])
            if greedy:
                e = pos; ends = [pos] if lo == 0 else []
                c = 0
                while e < self.n and (hi is C.MAXREPEAT or c < hi) and self.test(e, tab):
                    e += 1; c += 1
                    if c >= lo: ends.append(e)
                for x in reversed(ends): yield from self.seq(items, k + 1, x, g)
            else:
                e = pos; c = 0
                while True:
                    if c >= lo: yield from self.seq(items, k + 1, e, g)
                    if e < self.n and (hi is C.MAXREPEAT or c < hi) and self.test(e, tab): e += 1; c += 1
                    else: return
            return
        if greedy:
            if hi is C.MAXREPEAT or cnt < hi:
                for e, gg in self.seq(sub, 0, pos, g):
                    if e != pos: yield from self.rep(sub, lo, hi, greedy, cnt + 1, e, gg, items, k)
            if cnt >= lo: yield from self.seq(items, k + 1, pos, g)
        else:
            if cnt >= lo: yield from self.seq(items, k + 1, pos, g)
            if hi is C.MAXREPEAT or cnt < hi:
                for e, gg in self.seq(sub, 0, pos, g):
                    if e != pos: yield from self.rep(sub, lo, hi, greedy, cnt + 1, e, gg, items, k)
