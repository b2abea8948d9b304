"""Models of the Windows functions called by generated C loaders (narrow characters)."""
from engine import uid, Region, _tagof, _has_uid

def install(Models, fork, sym):
    def do_load(self, E, st, ins, namep, flags):
        return self.do_open(E, st, ins, namep, flags, None)
    def m_LoadLibraryExA(self, E, st, ins, a):
        if st.res(a[1]) != ('i', 0): E.report(st, 'C03', 'reserved', 'the reserved argument of LoadLibraryEx() is not null')
        return do_load(self, E, st, ins, a[0], a[2])
    def m_LoadLibraryA(self, E, st, ins, a): return do_load(self, E, st, ins, a[0], ('i', 0))
    def m_GetProcAddress(self, E, st, ins, a): return self.do_sym(E, st, ins, a[0], a[1])
    def m_FreeLibrary(self, E, st, ins, a):
        out = []
        for s, v in self.do_close(E, st, ins, a[0], None, ('i', 0)):
            if v is None: v = sym(s, None, None, {0})
            out.append((s, v))
        return out
    def m_GetLastError(self, E, st, ins, a):
        d = st.misc.get('dlerr')
        v = sym(st, 1 if d not in (None, 'any') else 0, 2**32 - 1)
        st.aux[('ptag', v[1])] = ('lasterr', d if d != 'any' else ('old',))
        return [(st, v)]
    def m_SetLastError(self, E, st, ins, a):
        st.misc['dlerr'] = ('c', uid(), ('set', _tagof(a[0]) if False else st.res(a[0])))
        return [(st, None)]
    def m_FormatMessageA(self, E, st, ins, a):
        fl = st.res(a[0])
        if fl[0] != 'i': E.report(st, 'C07', 'format-message', 'FormatMessage() is called with flags that are not constant'); return []
        fl = fl[1]
        if not fl & 0x200: E.report(st, 'C07', 'format-message', 'FormatMessage() may interpret insert sequences of a system message')
        if not fl & 0x1000: E.report(st, 'C07', 'format-message', 'FormatMessage() is given a message source other than the system')
        i = st.res(a[2])
        if i[0] == 'i': tag = ('sysmsg', i[1])
        else:
            t = st.aux.get(('ptag', i[1])) if i[0] == 's' else None
            tag = ('sysmsg', t if t else ('old',))
        c = st.fresh_content(tag, None)
        s2 = fork(st); st.note('FormatMessage ok'); s2.note('FormatMessage fails')
        if fl & 0x100:
            rid = ('heap', uid())
            st.mem[rid] = Region(None, 'undef', 'heap', tag=rid); st.tok[rid] = 'live'; st.aux[('local', rid)] = True
            st.mem[rid].strs[0] = c
            st.set_empt(c, 'N')
            if not E.store(st, a[4], 8, ('p', rid, 0), ins): return [(s2, ('i', 0))]
        else:
            d = E.ptr(st, a[4], ins, 'FormatMessage')
            if d is None: return [(s2, ('i', 0))]
            if not E.fits(st, d, a[5]): E.report(st, 'C07', 'oob-write', 'FormatMessage() is given a size larger than its buffer')
            st.set_empt(c, 'N')
            E.set_string(st, d, c)
        return [(st, sym(st, 1, 2**31)), (s2, ('i', 0))]
    def m_LocalFree(self, E, st, ins, a):
        v = st.res(a[0])
        if v != ('i', 0) and not (v[0] == 'p' and st.aux.get(('local', v[1]))):
            E.report(st, 'C08', 'bad-free', 'LocalFree() of memory that LocalAlloc()/FormatMessage() did not return'); return []
        return [(s, ('i', 0)) for s, _ in self.m_free(E, st, ins, a)]
    free0 = Models.m_free
    def m_free(self, E, st, ins, a):
        v = st.res(a[0])
        if v[0] == 'p' and st.aux.get(('local', v[1])) and ins is not None and E and self._callee(ins) == 'free':
            E.report(st, 'C08', 'bad-free', 'free() of memory that must be released with LocalFree()'); return []
        return free0(self, E, st, ins, a)
    def _callee(self, ins):
        c = ins.get('callee')
        return c[1] if c and c[0] == 'f' else None
    def m_GetModuleFileNameA(self, E, st, ins, a):
        k = self.check_handle(E, st, ins, a[0], 'GetModuleFileName')
        if k is None: return []
        d = E.ptr(st, a[1], ins, 'GetModuleFileName'); n = st.res(a[2])
        if d is None: return []
        if not E.fits(st, d, n): E.report(st, 'C07', 'oob-write', 'GetModuleFileName() is given a size larger than its buffer')
        s2 = fork(st); s3 = fork(st)
        st.note('GetModuleFileName ok'); s2.note('GetModuleFileName fails'); s3.note('GetModuleFileName truncates')
        c = st.fresh_content(('gmfn', k), 'N'); E.set_string(st, d, c)
        self.set_dlerr(E, s2, ('gmfn',)); self.set_dlerr(E, s3, ('gmfn',))
        c3 = s3.fresh_content(('trunc', ('gmfn', k)), 'N'); E.set_string(s3, d, ('unterm', c3))
        u = st.ub(n)
        return [(st, sym(st, 1, (u or 2**31) - 1)), (s2, ('i', 0)), (s3, n)]
    def m__snprintf_s(self, E, st, ins, a):
        cnt = st.res(a[2])
        if not (cnt[0] == 'i' and cnt[1] in (-1, 2**64 - 1)):
            E.report(st, 'C07', 'snprintf_s', '_snprintf_s() without _TRUNCATE ends the process when the text does not fit')
        return self.do_snprintf(E, st, ins, a[0], a[1], a[3], a[4:], '_snprintf_s')
    def m_fprintf_s(self, E, st, ins, a): return self.out_event(E, st, ins, a[0], a[1], a[2:], 'fprintf_s')
    def m_MessageBoxA(self, E, st, ins, a):
        cs = []
        for p in a[1:3]:
            c = E.content(st, p, ins, 'MessageBox')
            if c is None: return []
            cs.append(c)
        st.ev += (('print', 'stderr', b'%s%s', tuple(cs)),)
        return [(st, ('i', 1))]
    def m__strdup(self, E, st, ins, a): return self.do_strdup(E, st, ins, a[0])
    def wlen(st, c):
        """number of wide characters of the converted string, without the terminator"""
        k = ('wlen', c)
        if k not in st.aux: st.aux[k] = sym(st, 0, 2**40)
        return st.aux[k]
    def m_mbstowcs_s(self, E, st, ins, a):
        c = E.content(st, a[3], ins, 'mbstowcs_s')
        if c is None: return []
        s2 = fork(st); st.note('conversion ok'); s2.note('conversion fails'); s2.ev += (('sysfail', 'conversion'),)
        n = wlen(st, c)
        if st.emptiness(c) == 'N': st.setrng(n[1], 1, 2**40)
        d = st.res(a[1])
        if d != ('i', 0):
            dp = E.ptr(st, d, ins, 'mbstowcs_s')
            if dp is None: return []
            if not E.fits(st, dp, E.mul(st, st.res(a[2]), 4)): E.report(st, 'C07', 'oob-write', 'mbstowcs_s() is given a size larger than its destination')
            r = E.wr(st, dp[1]); r.strs = {0: c}
            if dp[1] in s2.mem: E.wr(s2, dp[1]).strs = {0: ('lit', b'')}
        elif st.res(a[2]) != ('i', 0):
            E.report(st, 'C08', 'null-deref', 'mbstowcs_s() is given a size but no destination'); return []
        cnt = E.add(st, n, ('i', 1))
        if st.res(a[0]) != ('i', 0):
            if not E.store(st, a[0], 8, cnt, ins): return []
            E.store(s2, a[0], 8, sym(s2, 0, 2**40), ins)
        return [(st, ('i', 0)), (s2, sym(s2, None, None, {0}))]
    def m_LoadLibraryExW(self, E, st, ins, a): return m_LoadLibraryExA(self, E, st, ins, a)
    for k, v in list(locals().items()):
        if k.startswith('m_') and k != 'm_free': setattr(Models, k, v)
    Models.m_free = m_free; Models._callee = _callee
