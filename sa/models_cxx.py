"""Models of the C++ standard library entities generated C++ loaders use.

std::string objects are one abstract field (32, ('str', content)); streams collect what is
inserted into them as a content and writing to std::cerr/cout/clog is recorded as an event.
"""
import re
from engine import uid, Region, _tagof
from models import fork, sym

S = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
NPOS = -1

def is_user(fn):
    return bool(fn.file) and not fn.file.startswith('/usr/')

def inline_pred(mod):
    """inline user functions and those library templates from which user code is called back"""
    memo = {}
    def reaches(name, stack):
        f = mod.funcs.get(name)
        if f is None or f.decl: return False
        if is_user(f): return True
        if name in memo: return memo[name]
        if name in stack: return False
        stack = stack | {name}; r = False
        for b in f.blocks:
            for i in b['i']:
                if i['op'] in ('call', 'invoke') and i['callee'][0] == 'f' and reaches(i['callee'][1], stack): r = True; break
            if r: break
        memo[name] = r
        return r
    TRIVIAL = re.compile(r'^(void |bool |auto )?(std::(move|forward|addressof|__addressof|exchange)<|std::_Setprecision)')
    def pred(fn):
        if is_user(fn): return True
        if fn.dem.startswith(('std::move', 'std::forward', 'std::remove_reference')) or '&& std::move<' in fn.dem or '&& std::forward<' in fn.dem: return True
        if fn.name.startswith(('__cxx_global_var_init', '_GLOBAL__sub_I')): return True
        return reaches(fn.name, frozenset())
    return pred

class CxxModels:
    def __init__(self, M):
        self.M = M

    # ------------------------------------------------------------ string objects
    def getstr(self, E, st, v, ins, what='std::string'):
        p = E.ptr(st, v, ins, what)
        if p is None: return None
        r = st.mem[p[1]]
        f = r.fields.get(p[2])
        if f and f[1][0] == 'str': return f[1][1]
        if r.default == 'undef':
            E.report(st, 'C08', 'uninit', 'a string object is used outside its lifetime'); return None
        if r.kind in ('glob',) and r.default == 'zero':
            E.report(st, 'C08', 'uninit', 'a string object is used before its construction'); return None
        c = st.fresh_content(('ld', r.tag, p[2] if isinstance(p[2], int) else None))
        r2 = E.wr(st, p[1]); r2.fields[p[2]] = (32, ('str', c))
        return c

    def setstr(self, E, st, v, c, ins):
        p = E.ptr(st, v, ins, 'std::string')
        if p is None: return False
        self.invalidate(E, st, p)
        if c[0] in ('unterm', 'undef'): c = ('c', uid(), _tagof(c))
        r = E.wr(st, p[1])
        r.fields[p[2]] = (32, ('str', c))
        return True

    def invalidate(self, E, st, p):
        for rid, r in list(st.mem.items()):
            if r.tag == ('cstr', p[1], p[2]) and r.kind != 'freed':
                r2 = E.wr(st, rid); r2.kind = 'freed'

    def destroy(self, E, st, v, ins):
        p = E.ptr(st, v, ins, 'std::string')
        if p is None: return False
        self.invalidate(E, st, p)
        r = E.wr(st, p[1])
        if r.default != 'undef': pass
        r.fields.pop(p[2], None)
        return True

    def cstr(self, E, st, p, ins):
        q = E.ptr(st, p, ins, 'std::string')
        if q is None: return None
        c = self.getstr(E, st, p, ins)
        if c is None: return None
        for rid, r in st.mem.items():
            if r.tag == ('cstr', q[1], q[2]) and r.kind == 'opq' and r.strs.get(0) == c: return ('p', rid, 0)
        rid = ('cstr', uid())
        r = Region(None, 'opq', 'opq', tag=('cstr', q[1], q[2])); r.strs[0] = c
        st.mem[rid] = r
        return ('p', rid, 0)

    def cat(self, st, a, b):
        if a == ('lit', b''): return b
        if b == ('lit', b''): return a
        if a[0] == 'lit' and b[0] == 'lit': return ('lit', a[1] + b[1])
        c = st.fresh_content(('cat', _tagof(a), _tagof(b)))
        if 'N' in (st.emptiness(a), st.emptiness(b)): st.set_empt(c, 'N')
        elif st.emptiness(a) == 'E': return b
        elif st.emptiness(b) == 'E': return a
        return c

    def chars(self, st, v):
        v = st.res(v)
        if v[0] == 'i': return ('lit', bytes([v[1] & 255]))
        return st.fresh_content(('char',), 'N')

    def number(self, st, v):
        v = st.res(v)
        if v[0] == 'i': return ('lit', str(v[1]).encode())
        return st.fresh_content(('num',), 'N')

    # ------------------------------------------------------------ lookup
    def lookup(self, name, fn):
        d = fn.dem
        d = d.replace(S, 'STR').replace('[abi:cxx11]', '')
        m = self.by_name(name, d, fn)
        return m

    def by_name(self, name, d, fn):
        if name == '__clang_call_terminate': return lambda E, st, ins, a: [(st, ('abort',), 'end')]
        if name in ('__cxa_atexit',): return self.cxa_atexit
        if name.startswith('__cxa_'):
            return getattr(self, name[2:], None)
        if name == '__cxa_guard_acquire': return lambda E, st, ins, a: [(st, ('i', 1))]
        if d.startswith('operator new(unsigned long, void*)'): return lambda E, st, ins, a: [(st, a[1])]
        if d.startswith(('operator new(', 'operator new[](')): return self.op_new
        if d.startswith(('operator delete(', 'operator delete[](')): return self.op_delete
        if re.match(r'std::(ios_base::Init::~?Init|__new_allocator<char>::~?__new_allocator|allocator<char>::~?allocator)\(', d): return self.nop
        if d in ('std::exit(int)',): return self.M.m_exit
        if d in ('std::terminate()',): return self.M.m_abort
        if d.startswith('STR::'):
            m = d[5:]
            base = m.split('(')[0].split('<')[0]
            arg = m[m.index('('):] if '(' in m else ''
            f = {'~basic_string': self.s_dtor, 'basic_string': self.s_ctor, 'operator=': self.s_assign, 'assign': self.s_assign, 'append': self.s_append,
                 'operator+=': self.s_append, 'push_back': self.s_append, 'clear': self.s_clear, 'empty': self.s_empty, 'size': self.s_len,
                 'length': self.s_len, 'c_str': self.s_cstr, 'data': self.s_cstr, 'find': self.s_find, 'rfind': self.s_find, 'find_first_of': self.s_find,
                 'find_last_of': self.s_find, 'compare': self.s_compare, 'substr': self.s_substr, 'insert': self.s_insert, 'swap': self.s_swap,
                 'front': self.s_at, 'back': self.s_at, 'at': self.s_at, 'operator[]': self.s_at, 'reserve': self.nop, 'shrink_to_fit': self.nop,
                 'starts_with': self.s_bool, 'ends_with': self.s_bool, 'contains': self.s_bool}.get(base)
            if f is None: return None
            return lambda E, st, ins, a, f=f, arg=arg: f(E, st, ins, a, arg)
        m = re.match(r'STR std::operator\+<', d)
        if m:
            ar = d[d.index('>(') + 2:-1]
            # parameter list of operator+
            ps = self.params(d)
            return lambda E, st, ins, a, ps=ps: self.s_plus(E, st, ins, a, ps)
        if re.search(r'std::operator(==|!=) ?<', d) and 'STR' in d or re.search(r'std::operator(==|!=) ?<char', d):
            ps = self.params(d); ne = 'operator!=' in d
            return lambda E, st, ins, a: self.s_eq(E, st, ins, a, ps, ne)
        if re.match(r'std::(__cxx11::)?to_string\(', d) or re.match(r'STR std::(__cxx11::)?to_string\(', d): return self.to_string
        if re.search(r'std::operator<<\s*<', d):
            ps = self.params(d)
            return lambda E, st, ins, a, ps=ps: self.insert(E, st, ins, a, ps[1])
        m = re.match(r'std::(?:basic_ostream<char, std::char_traits<char>>|ostream)::operator<<\((.*)\)$', d)
        if m:
            t = m.group(1)
            return lambda E, st, ins, a, t=t: self.insert(E, st, ins, a, 'MANIP' if '(*)' in t else 'NUM')
        if re.match(r'std::(?:basic_ostream<char, std::char_traits<char>>|ostream)::(write|put|flush)\(', d):
            return self.o_write
        if re.search(r'std::(endl|flush|ends)<char', d): return lambda E, st, ins, a: self.endl(E, st, ins, a)
        m = re.match(r'std::__cxx11::basic_(stringstream|ostringstream)<char, std::char_traits<char>, std::allocator<char>>::(~?\w+)\((.*)\)( const)?$', d)
        if m:
            f = m.group(2)
            if f.startswith('~'): return self.ss_dtor
            if f.startswith('basic_'): return self.ss_ctor
            if f == 'str': return self.ss_str if m.group(4) else self.ss_setstr
        m = re.match(r'std::(runtime_error|logic_error|invalid_argument|out_of_range|exception)::(~?\w+)\((.*)\)( const)?$', d)
        if m:
            if m.group(2).startswith('~'): return self.nop
            if m.group(2) == 'what': return None
            return self.exc_ctor
        if d.startswith('std::exception::exception('): return self.nop
        if d.startswith('std::char_traits<char>::length'): return self.M.m_strlen
        return None

    def params(self, d):
        s = d[d.rindex(')') if False else 0:]
        # last top-level parenthesised list
        depth = 0; end = s.rindex(')')
        i = end
        while i >= 0:
            if s[i] == ')': depth += 1
            elif s[i] == '(':
                depth -= 1
                if depth == 0: break
            i -= 1
        body = s[i + 1:end]; out = []; depth = 0; cur = ''
        for ch in body:
            if ch in '<(': depth += 1
            if ch in '>)': depth -= 1
            if ch == ',' and depth == 0: out.append(cur.strip()); cur = ''
            else: cur += ch
        if cur.strip(): out.append(cur.strip())
        return out

    def nop(self, E, st, ins, a, *_): return [(st, None if not a else a[0])]

    # ------------------------------------------------------------ basic_string members
    def cptr(self, E, st, v, ins, what):
        """content of a const char* argument"""
        if st.res(v) == ('i', 0):
            E.report(st, 'C08', 'null-deref', 'a string is constructed from a null pointer (%s)' % what); return None
        return E.content(st, v, ins, what)

    def arg_content(self, E, st, v, ty, ins):
        ty = ty.strip()
        if 'STR' in ty: return self.getstr(E, st, v, ins)
        if ty.startswith('char const*') or ty.startswith('const char*') or ty == 'char*': return self.cptr(E, st, v, ins, 'std::string')
        if ty in ('char',): return self.chars(st, v)
        return self.number(st, v)

    def s_dtor(self, E, st, ins, a, arg): return [(st, None)] if self.destroy(E, st, a[0], ins) else []

    def make(self, E, st, ins, a, ps):
        """content described by constructor/assign arguments (after the object itself)"""
        ps = [p for p in ps if 'allocator' not in p.replace('STR', '')]
        if not ps: return ('lit', b'')
        t = ps[0]
        if 'STR' in t:
            c = self.getstr(E, st, a[0], ins)
            if c is None: return None
            if len(ps) > 1: return st.fresh_content(('part', _tagof(c)))
            return c
        if t.startswith('char const*'):
            if len(ps) > 1:      # (ptr, len)
                n = st.res(a[1])
                c = self.cptr(E, st, a[0], ins, 'std::string') if n != ('i', 0) else ('lit', b'')
                if c is None: return None
                if c[0] == 'lit' and n[0] == 'i' and n[1] <= len(c[1]): return ('lit', c[1][:n[1]])
                k = st.fresh_content(('part', _tagof(c)))
                if n[0] == 'i' and n[1] > 0: st.set_empt(k, 'N')
                return k
            return self.cptr(E, st, a[0], ins, 'std::string')
        if t == 'char': return self.chars(st, a[0])
        if t.startswith('unsigned long'):
            n = st.res(a[0])
            c = st.fresh_content(('fill',))
            if n[0] == 'i': st.set_empt(c, 'N' if n[1] else 'E')
            return c
        return st.fresh_content(('ctor',))

    def s_ctor(self, E, st, ins, a, arg):
        ps = self.params(arg)
        if 'std::allocator<char>' in ' '.join(ps) and a and len(ps) and False: pass
        c = self.make(E, st, ins, a[1:], ps)
        if c is None: return []
        if '&&' in arg and 'STR' in arg:
            self.setstr(E, st, a[1], ('lit', b''), ins)
        return [(st, None)] if self.setstr(E, st, a[0], c, ins) else []
    def s_assign(self, E, st, ins, a, arg):
        ps = self.params(arg)
        c = self.make(E, st, ins, a[1:], ps)
        if c is None: return []
        if '&&' in arg: self.setstr(E, st, a[1], ('lit', b''), ins)
        return [(st, a[0])] if self.setstr(E, st, a[0], c, ins) else []
    def s_append(self, E, st, ins, a, arg):
        o = self.getstr(E, st, a[0], ins)
        c = self.make(E, st, ins, a[1:], self.params(arg))
        if c is None or o is None: return []
        return [(st, a[0])] if self.setstr(E, st, a[0], self.cat(st, o, c), ins) else []
    def s_insert(self, E, st, ins, a, arg):
        o = self.getstr(E, st, a[0], ins)
        c = self.make(E, st, ins, a[2:], self.params(arg)[1:])
        if c is None or o is None: return []
        return [(st, a[0])] if self.setstr(E, st, a[0], self.cat(st, c, o), ins) else []
    def s_clear(self, E, st, ins, a, arg):
        return [(st, None)] if self.setstr(E, st, a[0], ('lit', b''), ins) else []
    def s_swap(self, E, st, ins, a, arg):
        x = self.getstr(E, st, a[0], ins); y = self.getstr(E, st, a[1], ins)
        if x is None or y is None: return []
        self.setstr(E, st, a[0], y, ins); self.setstr(E, st, a[1], x, ins)
        return [(st, None)]
    def forkempty(self, st, c):
        e = st.emptiness(c)
        if e: return [(st, e)]
        s2 = fork(st); out = []
        if st.set_empt(c, 'E'): out.append((st, 'E'))
        if s2.set_empt(c, 'N'): out.append((s2, 'N'))
        return out
    def s_empty(self, E, st, ins, a, arg):
        c = self.getstr(E, st, a[0], ins)
        if c is None: return []
        return [(s, ('i', 1 if e == 'E' else 0)) for s, e in self.forkempty(st, c)]
    def s_len(self, E, st, ins, a, arg):
        c = self.getstr(E, st, a[0], ins)
        if c is None: return []
        return [(st, self.M.length(st, c))]
    def s_cstr(self, E, st, ins, a, arg):
        v = self.cstr(E, st, a[0], ins)
        return [(st, v)] if v is not None else []
    def s_find(self, E, st, ins, a, arg):
        c = self.getstr(E, st, a[0], ins)
        n = self.arg_content(E, st, a[1], self.params(arg)[0], ins)
        if c is None or n is None: return []
        if c[0] == 'lit' and n[0] == 'lit' and (len(a) < 3 or st.res(a[2]) == ('i', 0)):
            return [(st, ('i', c[1].find(n[1])))]
        if n[0] == 'lit' and n[1] and st.emptiness(c) == 'E': return [(st, ('i', NPOS))]
        s2 = fork(st)
        return [(st, ('i', NPOS)), (s2, sym(s2, 0, 2**47))]
    def s_bool(self, E, st, ins, a, arg): return [(st, sym(st, 0, 1))]
    def s_compare(self, E, st, ins, a, arg): return [(s, ('i', 0) if r else sym(s, None, None, {0})) for s, r in self.eq(E, st, ins, a[0], 'STR', a[1], self.params(arg)[0])]
    def s_substr(self, E, st, ins, a, arg):
        # sret
        c = self.getstr(E, st, a[1], ins)
        if c is None: return []
        return [(st, None)] if self.setstr(E, st, a[0], st.fresh_content(('part', _tagof(c))), ins) else []
    def s_at(self, E, st, ins, a, arg):
        v = self.cstr(E, st, a[0], ins)
        if v is None: return []
        if len(a) > 1: return [(st, E.padd(st, v, st.res(a[1])))]
        return [(st, v)]
    def s_plus(self, E, st, ins, a, ps):
        x = self.arg_content(E, st, a[1], ps[0], ins); y = self.arg_content(E, st, a[2], ps[1], ins)
        if x is None or y is None: return []
        for v, p in ((a[1], ps[0]), (a[2], ps[1])):
            if p.endswith('&&'): self.setstr(E, st, v, ('lit', b''), ins)
        return [(st, None)] if self.setstr(E, st, a[0], self.cat(st, x, y), ins) else []
    def eq(self, E, st, ins, v, tv, w, tw):
        x = self.arg_content(E, st, v, tv, ins); y = self.arg_content(E, st, w, tw, ins)
        if x is None or y is None: return []
        if x == y: return [(st, True)]
        if x[0] == 'lit' and y[0] == 'lit': return [(st, x[1] == y[1])]
        for p, q in ((x, y), (y, x)):
            if q == ('lit', b''): return [(s, e == 'E') for s, e in self.forkempty(st, p)]
        if (x[0] == 'lit') != (y[0] == 'lit') and b'\0' not in (x if x[0] == 'lit' else y)[1]:
            return [(s, r == ('i', 0)) for s, r in self.M.cmp_contents(st, x, y)]
        s2 = fork(st)
        return [(st, True), (s2, False)]
    def s_eq(self, E, st, ins, a, ps, ne):
        return [(s, ('i', int(r != ne))) for s, r in self.eq(E, st, ins, a[0], ps[0], a[1], ps[1])]
    def to_string(self, E, st, ins, a):
        return [(st, None)] if self.setstr(E, st, a[0], self.number(st, a[1]), ins) else []

    # ------------------------------------------------------------ streams
    STD = {'_ZSt4cerr': 'stderr', '_ZSt4clog': 'stderr', '_ZSt4cout': 'stdout'}
    def stream_add(self, E, st, v, c, ins):
        p = E.ptr(st, v, ins, 'stream')
        if p is None: return False
        if p[1][0] == 'g' and p[1][1] in self.STD:
            if c is not None: st.ev += (('print', self.STD[p[1][1]], b'%s', (c,)),)
            return True
        r = st.mem[p[1]]
        f = r.fields.get('ss')
        if f is None:
            if r.kind in ('loc', 'heap'): E.report(st, 'C08', 'uninit', 'a stream is used outside its lifetime'); return False
            return True
        if c is not None:
            r = E.wr(st, p[1]); r.fields['ss'] = (0, ('str', self.cat(st, f[1][1], c)))
        return True
    def insert(self, E, st, ins, a, ty):
        if ty == 'MANIP': c = None
        elif ty == 'NUM': c = self.number(st, a[1])
        elif ty.endswith('char') : c = self.chars(st, a[1])
        elif 'char const*' in ty:
            if st.res(a[1]) == ('i', 0):
                E.report(st, 'C08', 'null-deref', 'a null string is written to a stream'); return []
            c = E.content(st, a[1], ins, 'stream output')
            if c is None: return []
        elif 'STR' in ty or 'basic_string' in ty:
            c = self.getstr(E, st, a[1], ins)
            if c is None: return []
        else: c = st.fresh_content(('out',))
        return [(st, a[0])] if self.stream_add(E, st, a[0], c, ins) else []
    def endl(self, E, st, ins, a): return [(st, a[0])]
    def o_write(self, E, st, ins, a): return [(st, a[0])]
    def ss_ctor(self, E, st, ins, a):
        p = E.ptr(st, a[0], ins, 'stream')
        if p is None: return []
        c = ('lit', b'')
        r = E.wr(st, p[1]); r.fields['ss'] = (0, ('str', c))
        return [(st, None)]
    def ss_dtor(self, E, st, ins, a):
        p = E.ptr(st, a[0], ins, 'stream')
        if p is None: return []
        r = E.wr(st, p[1]); r.fields.pop('ss', None)
        return [(st, None)]
    def ss_str(self, E, st, ins, a):
        p = E.ptr(st, a[1], ins, 'stream')
        if p is None: return []
        f = st.mem[p[1]].fields.get('ss')
        if f is None: E.report(st, 'C08', 'uninit', 'a stream is used outside its lifetime'); return []
        return [(st, None)] if self.setstr(E, st, a[0], f[1][1], ins) else []
    def ss_setstr(self, E, st, ins, a):
        p = E.ptr(st, a[0], ins, 'stream'); c = self.getstr(E, st, a[1], ins)
        if p is None or c is None: return []
        r = E.wr(st, p[1]); r.fields['ss'] = (0, ('str', c))
        return [(st, None)]

    # ------------------------------------------------------------ exceptions / runtime
    def cxa_allocate_exception(self, E, st, ins, a):
        rid = ('exc', uid()); st.mem[rid] = Region(None, 'undef', 'opq', tag=('exc',))
        return [(st, ('p', rid, 0))]
    def cxa_free_exception(self, E, st, ins, a): return [(st, None)]
    def cxa_throw(self, E, st, ins, a):
        ty = ins['ops'][1]
        msg = None
        v = st.res(a[0])
        if v[0] == 'p' and v[1] in st.mem:
            f = st.mem[v[1]].fields.get('what')
            if f: msg = f[1][1]
        st.misc['thrown'] = (ty[1] if ty[0] == 'g' else None, msg)
        return [(st, ty[1] if ty[0] == 'g' else '?', 'throw')]
    def cxa_begin_catch(self, E, st, ins, a): return [(st, a[0])]
    def cxa_end_catch(self, E, st, ins, a):
        st.exc = None
        return [(st, None)]
    def cxa_rethrow(self, E, st, ins, a): return [(st, st.exc[0] if st.exc else '?', 'throw')]
    def cxa_atexit(self, E, st, ins, a):
        st.misc['cxa'] = st.misc.get('cxa', ()) + ((st.res(a[0]), st.res(a[1])),)
        return [(st, ('i', 0))]
    def cxa_guard_acquire(self, E, st, ins, a): return [(st, ('i', 1))]
    def cxa_guard_release(self, E, st, ins, a): return [(st, None)]
    def exc_ctor(self, E, st, ins, a):
        p = E.ptr(st, a[0], ins, 'exception object')
        if p is None: return []
        c = None
        if len(a) > 1:
            q = st.res(a[1])
            f = st.mem[q[1]].fields.get(q[2]) if q[0] == 'p' and q[1] in st.mem else None
            c = f[1][1] if f and f[1][0] == 'str' else self.cptr(E, st, a[1], ins, 'exception message')
            if c is None: return []
        r = E.wr(st, p[1]); r.fields['what'] = (0, ('str', c or ('lit', b'')))
        return [(st, None)]
    def op_new(self, E, st, ins, a):
        n = st.res(a[0])
        rid = self.M.newheap(st, n[1] if n[0] == 'i' else None, 'undef')
        return [(st, ('p', rid, 0))]
    def op_delete(self, E, st, ins, a): return self.M.m_free(E, st, ins, a[:1])
