"""More models of library functions for gx.Engine: containers, input streams, C strings and stdio,
error codes, paths.  The program does not use them now; a changed one may."""
import re
import gx
from gx import Undecided, End, UNDEF, Region, IDT
import gxm
from gxm import (asint, pstr, mkstr, setstr, emit, event, faults, fskey, fs_state, find_stream, reg_stream, upd, concrete, lit, vis, mkcstr, release, throw_std,
    m_new, m_nop, m_ret0, fs_err, FT, fp_key, mkpath, split_name, ext_index, stream_fail)

def at(p, o): return ('p', p[1], p[2] + o)

# ---------------------------------------------------------------- red-black trees (kept as plain search trees; all nodes black)
PAR, LEFT, RIGHT = 8, 16, 24
def ld(E, st, n, o): return E.load(st, at(n, o), 8)
def sto(E, st, n, o, v): E.store(st, at(n, o), 8, v)
def m_rb_insert(E, st, a, ins):
    left, x, p, h = a
    sto(E, st, x, PAR, p); sto(E, st, x, LEFT, 0); sto(E, st, x, RIGHT, 0); E.store(st, x, 4, 1)
    if left & 1:
        sto(E, st, p, LEFT, x)
        if p == h: sto(E, st, h, PAR, x); sto(E, st, h, RIGHT, x)
        elif p == ld(E, st, h, LEFT): sto(E, st, h, LEFT, x)
    else:
        sto(E, st, p, RIGHT, x)
        if p == ld(E, st, h, RIGHT): sto(E, st, h, RIGHT, x)
def m_rb_inc(E, st, a, ins):
    x = a[0]; r = ld(E, st, x, RIGHT)
    if r != 0:
        x = r
        while ld(E, st, x, LEFT) != 0: x = ld(E, st, x, LEFT)
        return x
    y = ld(E, st, x, PAR)
    while x == ld(E, st, y, RIGHT): x, y = y, ld(E, st, y, PAR)
    return y if ld(E, st, x, RIGHT) != y else x
def m_rb_dec(E, st, a, ins):
    x = a[0]
    if E.load(st, x, 4) == 0 and ld(E, st, ld(E, st, x, PAR), PAR) == x: return ld(E, st, x, RIGHT)
    l = ld(E, st, x, LEFT)
    if l != 0:
        while ld(E, st, l, RIGHT) != 0: l = ld(E, st, l, RIGHT)
        return l
    y = ld(E, st, x, PAR)
    while x == ld(E, st, y, LEFT): x, y = y, ld(E, st, y, PAR)
    return y
def m_rb_erase(E, st, a, ins):
    z, h = a
    def put(parent, old, new):
        if parent == h: sto(E, st, h, PAR, new)
        elif ld(E, st, parent, LEFT) == old: sto(E, st, parent, LEFT, new)
        else: sto(E, st, parent, RIGHT, new)
        if new != 0: sto(E, st, new, PAR, parent)
    l, r, p = ld(E, st, z, LEFT), ld(E, st, z, RIGHT), ld(E, st, z, PAR)
    if l == 0: put(p, z, r)
    elif r == 0: put(p, z, l)
    else:
        y = r
        while ld(E, st, y, LEFT) != 0: y = ld(E, st, y, LEFT)
        if y != r:
            put(ld(E, st, y, PAR), y, ld(E, st, y, RIGHT)); sto(E, st, y, RIGHT, r); sto(E, st, r, PAR, y)
        put(p, z, y); sto(E, st, y, LEFT, l); sto(E, st, l, PAR, y)
    root = ld(E, st, h, PAR)
    if root == 0: sto(E, st, h, LEFT, h); sto(E, st, h, RIGHT, h)
    else:
        x = root
        while ld(E, st, x, LEFT) != 0: x = ld(E, st, x, LEFT)
        sto(E, st, h, LEFT, x); x = root
        while ld(E, st, x, RIGHT) != 0: x = ld(E, st, x, RIGHT)
        sto(E, st, h, RIGHT, x)
    return z

# ---------------------------------------------------------------- hash tables, lists
def m_hash(E, st, a, ins):
    b = concrete(E.read_bytes(st, a[0], asint(E, st, a[1])))
    if b is None: raise Undecided('hash of a symbolic text')
    M = (1 << 64) - 1; mul = 0xc6a4a7935bd1e995; sm = lambda v: v ^ (v >> 47)
    h = (asint(E, st, a[2]) ^ (len(b) * mul)) & M; n = len(b) & ~7
    for k in range(0, n, 8):
        d = sm(int.from_bytes(b[k:k + 8], 'little') * mul & M) * mul & M
        h = (h ^ d) * mul & M
    if len(b) & 7: h = (h ^ int.from_bytes(b[n:], 'little')) * mul & M
    h = sm(h) * mul & M
    return sm(h)
PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273]
def next_bkt(E, st, p, n):
    b = next((x for x in PRIMES if x >= n), None)
    if b is None: raise Undecided('large hash table')
    E.store(st, at(p, 8), 8, b)
    return b
def m_next_bkt(E, st, a, ins): return next_bkt(E, st, a[0], asint(E, st, a[1]))
def m_need_rehash(E, st, a, ins):
    p, nb, ne, ni = a[0], asint(E, st, a[1]), asint(E, st, a[2]), asint(E, st, a[3])
    nr = asint(E, st, E.load(st, at(p, 8), 8))
    if ne + ni <= nr: return ('a', [0, 0])
    m = max(ne + ni, 0 if nr else 11)
    if m >= nb: return ('a', [1, next_bkt(E, st, p, max(m + 1, nb * 2))])
    E.store(st, at(p, 8), 8, nb); return ('a', [0, 0])
def m_list_transfer(E, st, a, ins):
    t, f, l = a
    if t == l: return
    g = lambda n, o: ld(E, st, n, o)
    lp, fp, tp = g(l, 8), g(f, 8), g(t, 8)
    sto(E, st, lp, 0, t); sto(E, st, fp, 0, l); sto(E, st, tp, 0, f)
    sto(E, st, t, 8, lp); sto(E, st, l, 8, fp); sto(E, st, f, 8, tp)
def m_list_reverse(E, st, a, ins):
    n = a[0]
    while True:
        x, y = ld(E, st, n, 0), ld(E, st, n, 8)
        sto(E, st, n, 0, y); sto(E, st, n, 8, x); n = x
        if n == a[0]: return
def m_replace_cold(E, st, a, ins):
    p, n1, s, n2, tail = a[1], asint(E, st, a[2]), a[3], asint(E, st, a[4]), asint(E, st, a[5])
    src = E.read_bytes(st, s, n2); t = E.read_bytes(st, at(p, n1), tail)
    E.write_bytes(st, at(p, n2), t); E.write_bytes(st, p, src)

# ---------------------------------------------------------------- output streams
def m_ostream_insert(E, st, a, ins): return emit(E, st, a[0], pad(E, st, a[0], E.read_bytes(st, a[1], asint(E, st, a[2]))))
def m_out_sv(E, st, a, ins):
    n = a[1]; return emit(E, st, a[0], pad(E, st, a[0], E.read_bytes(st, a[2], asint(E, st, n))))
def m_setw(E, st, a, ins): st.X[('W',) + find_stream(E, st, a[0])] = asint(E, st, a[1]); return a[0]
def m_setfill(E, st, a, ins): st.X[('fill',) + find_stream(E, st, a[0])] = a[1] & 255; return a[0]
def m_iosmanip(E, st, a, ins):
    f = a[1][1] if type(a[1]) is tuple and a[1][0] == 'f' else ''
    m = re.match(r'_ZSt\d+(left|right|internal|hex|dec|oct|boolalpha|noboolalpha|showbase|noshowbase|uppercase|nouppercase|unitbuf|nounitbuf|skipws|noskipws)RSt8ios_base', f)
    if not m: raise Undecided('stream manipulator')
    m = m.group(1); k = find_stream(E, st, a[0])
    if m in ('left', 'right', 'internal'): st.X[('adj',) + k] = m
    elif m in ('hex', 'dec', 'oct'): st.X[('base',) + k] = m
    elif m not in ('unitbuf', 'nounitbuf', 'skipws', 'boolalpha', 'noboolalpha'): raise Undecided('stream manipulator')
    else: st.X[('flag',) + k] = m
    return a[0]
def pad(E, st, p, cells):
    k = find_stream(E, st, p); w = st.X.pop(('W',) + k, 0)
    if w <= len(cells): return cells
    f = [st.X.get(('fill',) + k, 32)] * (w - len(cells))
    return list(cells) + f if st.X.get(('adj',) + k) == 'left' else f + list(cells)
gxm.pad = pad

# ---------------------------------------------------------------- input streams
def rd(E, st, p):
    """(key, data, pos) of an input stream or None if it is in an error state"""
    k = find_stream(E, st, p); s = st.X[k]
    q = ('in',) + k
    if q not in st.X:
        if s.kind == 'ss': st.X[q] = 0
        else: return None
    if s.kind == 'ss': return q, gxm.flat(s.data), st.X[q]
    return q, st.X[('data',) + k], st.X[q]
def in_open(E, st, p, path):
    k = find_stream(E, st, p)
    files = st.X.get('files', {}); key = fskey(path); b = bytes(x if type(x) is int else 63 for x in path)
    event(st, 'fopen', key)
    data = files.get(key, files.get(b))
    if data is None and b == b'/dev/stdin': data = st.X.get('stdin', b'')
    if data is None or 'fopen' in faults(st) and E.choose(st, 2, 'open of %s fails' % vis(path)):
        event(st, 'fault', 'fopen'); upd(st, k).fail = True; return
    s = upd(st, k); s.open = True
    st.X[('data',) + k] = list(data) if not isinstance(data, list) else data; st.X[('in',) + k] = 0; st.X.pop(('eof',) + k, None)
    st.X['fopen'] = st.X.get('fopen', ()) + (b,)
def m_ifs_ctor(E, st, a, ins):
    reg_stream(E, st, a[0], 'in', 520); E.store(st, a[0], 8, ('p', '@VT:ifs', 32)); E.store(st, at(a[0], 8), 8, 0)
def m_ifs_ctor_c(E, st, a, ins): m_ifs_ctor(E, st, a, ins); in_open(E, st, a[0], E.cstr(st, a[1]))
def m_ifs_ctor_s(E, st, a, ins): m_ifs_ctor(E, st, a, ins); in_open(E, st, a[0], pstr(E, st, a[1]))
def m_ifs_open_c(E, st, a, ins): in_open(E, st, a[0], E.cstr(st, a[1]))
def m_ifs_open_s(E, st, a, ins): in_open(E, st, a[0], pstr(E, st, a[1]))
def m_ifs_close(E, st, a, ins): upd(st, find_stream(E, st, a[0])).open = False
def m_ifs_dtor(E, st, a, ins):
    k = find_stream(E, st, a[0]); st.X.pop(k, None); st.X[('R', a[0][1])] = tuple(x for x in st.X.get(('R', a[0][1]), ()) if x[0] != a[0][2])
def m_iss_ctor(E, st, a, ins):
    s = reg_stream(E, st, a[0], 'ss', 392); s.open = True; s.data = (None, pstr(E, st, a[1]), None)
    E.store(st, a[0], 8, ('p', '@VT:iss', 32)); E.store(st, at(a[0], 8), 8, 0)
def m_ss_ctor_s(E, st, a, ins):
    gxm.m_ss_ctor(E, st, a, ins); k = find_stream(E, st, a[0]); upd(st, k).data = (None, pstr(E, st, a[1]), None)
def m_ss_set(E, st, a, ins):
    k = find_stream(E, st, a[0]); upd(st, k).data = (None, pstr(E, st, a[1]), None); st.X.pop(('in',) + k, None)
def eof(st, k, failed):
    k = k[1:]; st.X[('eof',) + k] = True
    if failed: upd(st, k).fail = True
def readfault(E, st, p):
    """a read error may happen once"""
    k = find_stream(E, st, p)
    if st.X[k].kind == 'in' and 'fread' in faults(st) and not st.X.get('readerr') and E.choose(st, 2, 'read error'):
        st.X['readerr'] = True; event(st, 'fault', 'read'); upd(st, k).fail = True; st.X[('bad',) + k] = True
        return True
    return False
def usable(E, st, p):
    k = find_stream(E, st, p)
    if st.X[k].fail or st.X.get(('eof',) + k): upd(st, k).fail = True; return None
    if readfault(E, st, p): return None
    return rd(E, st, p)
def m_getline(E, st, a, ins):
    d = asint(E, st, a[2]) & 255 if len(a) > 2 else 10
    r = usable(E, st, a[0])
    if r is None: return a[0]
    k, data, pos = r
    out = []; n = len(data); found = False
    while pos < n:
        c = data[pos]; pos += 1
        if c == d if type(c) is int else E.cmp(st, 'eq', c, d, 8): found = True; break
        out.append(c)
    st.X[k] = pos; setstr(E, st, a[1], out)
    if not found: eof(st, k, not out)
    return a[0]
def m_is_get(E, st, a, ins):
    r = usable(E, st, a[0])
    c = None
    if r is not None:
        k, data, pos = r
        if pos < len(data): c = data[pos]; st.X[k] = pos + 1
        else: eof(st, k, True)
    if len(a) > 1:
        if c is not None: E.store(st, a[1], 1, c)
        return a[0]
    return 0xffffffff if c is None else c
def m_is_peek(E, st, a, ins):
    r = usable(E, st, a[0])
    if r is None: return 0xffffffff
    k, data, pos = r
    if pos < len(data): return data[pos]
    eof(st, k, False); return 0xffffffff
def m_is_word(E, st, a, ins):
    r = usable(E, st, a[0])
    if r is None: return a[0]
    k, data, pos = r
    sp = lambda c: c in (32, 9, 10, 11, 12, 13) if type(c) is int else E.decide(st, c[1], [x in (32, 9, 10, 11, 12, 13) for x in c[2]])
    while pos < len(data) and sp(data[pos]): pos += 1
    out = []
    while pos < len(data) and not sp(data[pos]): out.append(data[pos]); pos += 1
    st.X[k] = pos
    if out: setstr(E, st, a[1], out)
    if pos >= len(data): eof(st, k, not out)
    return a[0]
def m_is_read(E, st, a, ins):
    r = usable(E, st, a[0]); n = asint(E, st, a[2])
    if r is None: return a[0]
    k, data, pos = r
    part = data[pos:pos + n]; E.check(st, a[1], n, 'write'); E.write_bytes(st, a[1], part); st.X[k] = pos + len(part); E.store(st, at(a[0], 8), 8, len(part))
    if len(part) < n: eof(st, k, True)
    return a[0]
def m_eof(E, st, a, ins): return 1 if st.X.get(('eof',) + find_stream(E, st, a[0])) else 0
def m_good2(E, st, a, ins):
    if st.X.get(('eof',) + find_stream(E, st, a[0])): return 0
    return 1 - stream_fail(E, st, a[0])
def m_bad(E, st, a, ins):
    k = find_stream(E, st, a[0])
    if st.X[k].kind in ('in', 'ss'): return 1 if st.X.get(('bad',) + k) else 0
    return stream_fail(E, st, a[0])
def m_exceptions(E, st, a, ins): raise Undecided('streams that throw')
def m_rdbuf(E, st, a, ins):
    k = find_stream(E, st, a[0]); return ('p', a[0][1], a[0][2] + 16) if st.X[k].kind == 'in' else a[0]
def m_out_buf(E, st, a, ins):
    r = rd(E, st, a[1])
    if r is None or readfault(E, st, a[1]): upd(st, find_stream(E, st, a[0])).fail = True; return a[0]
    k, data, pos = r; part = data[pos:]
    st.X[k] = len(data)
    if not part: upd(st, find_stream(E, st, a[0])).fail = True; return a[0]
    return emit(E, st, a[0], part)
def m_buf_getc(adv):
    def m(E, st, a, ins):
        r = rd(E, st, a[0])
        if r is None: return 0xffffffff
        k, data, pos = r
        if pos >= len(data): return 0xffffffff
        if adv: st.X[k] = pos + 1
        return data[pos]
    return m

# ---------------------------------------------------------------- error codes and file system calls that use them
def m_category(E, st, a, ins): return ('p', '@errcat', 0)
def m_ecmsg(E, st, a, ins): mkstr(E, st, a[0], lit('error'))
def m_ecname(E, st, a, ins): return mkcstr(E, st, 'generic')
def seterr(E, st, ec, v):
    E.store(st, ec, 4, v); E.store(st, at(ec, 8), 8, ('p', '@errcat', 0))
def with_ec(model, pos, failed):
    """the form of a file system function that reports errors through an error_code argument"""
    def m(E, st, a, ins):
        k = len(a) - 1 if pos is None else pos
        ec = a[k]; b = a[:k] + a[k + 1:]
        seterr(E, st, ec, 0)
        try: return model(E, st, b, ins)
        except gx.Throw:
            seterr(E, st, ec, 5); return failed(ins) if callable(failed) else failed
    return m
def st_fail(ins): return ('a', [0, 0xffff]) if ins.get('ty', '').startswith('{') else 0xffff << 32
def m_status_ec(follow):
    def m(E, st, a, ins):
        k = 2 if ins.get('sret') else 1
        seterr(E, st, a[k], 0)
        if 'fs' in faults(st) and E.choose(st, 2, 'status fails'):
            event(st, 'fault', 'fs'); seterr(E, st, a[k], 5)
            if k == 2: E.store(st, a[0], 1, 0); E.store(st, at(a[0], 4), 4, 0xffff); return None
            return st_fail(ins)
        f = st.X['faults']; st.X['faults'] = frozenset()
        try:
            r = gxm.m_symlink_status(E, st, a[:k], ins, follow)
        finally: st.X['faults'] = f
        path = pstr(E, st, a[k - 1]); t = st.X.get(('fs', fskey(path)))
        if t == 'absent' or t == 'dlink' and follow: seterr(E, st, a[k], 2)
        return r
    return m
def m_fs_rename(E, st, a, ins):
    x, y = pstr(E, st, a[0]), pstr(E, st, a[1])
    t = fs_state(E, st, y, 'rename'); s = st.X.get(('fs', fskey(x)))
    event(st, 'remove', fskey(x), s or 'unchecked'); event(st, 'openw', fskey(y), st.X.get(('fs', fskey(y))) or 'unchecked', True)
    st.X[('fs', fskey(x))] = 'absent'; st.X[('fs', fskey(y))] = 'file'
    if ('F', fskey(x)) in st.X: st.X[('F', fskey(y))] = st.X.pop(('F', fskey(x)))
def m_fs_size(E, st, a, ins):
    f = st.X.get('files', {}); p = pstr(E, st, a[0]); b = bytes(x if type(x) is int else 63 for x in p); d = f.get(fskey(p), f.get(b))
    if d is None: fs_err(E, st, 'file_size')
    return len(d)

# ---------------------------------------------------------------- paths
def m_path_concat(E, st, a, ins): setstr(E, st, a[0], pstr(E, st, a[0]) + E.read_bytes(st, a[2], asint(E, st, a[1])))
def m_path_append_sv(E, st, a, ins):
    add = E.read_bytes(st, a[2], asint(E, st, a[1])); c = pstr(E, st, a[0])
    if add and E.cmp(st, 'eq', add[0], 47, 8): r = add
    elif c and not E.cmp(st, 'eq', c[-1], 47, 8): r = c + [47] + add
    else: r = c + add
    setstr(E, st, a[0], r)
def m_path_rmname(E, st, a, ins): c = pstr(E, st, a[0]); setstr(E, st, a[0], c[:split_name(E, st, c)]); return a[0]
def m_path_hasname(E, st, a, ins): c = pstr(E, st, a[0]); return 1 if split_name(E, st, c) < len(c) else 0
def m_path_hasparent(E, st, a, ins): c = pstr(E, st, a[0]); return 1 if split_name(E, st, c) else 0
def m_path_hasroot(E, st, a, ins): c = pstr(E, st, a[0]); return 1 if c and E.cmp(st, 'eq', c[0], 47, 8) else 0
def m_path_findext(E, st, a, ins):
    c = pstr(E, st, a[0]); k = ext_index(E, st, c)
    return ('a', [0, (1 << 64) - 1]) if split_name(E, st, c) == len(c) else ('a', [a[0], (1 << 64) - 1 if k is None else k - split_name(E, st, c)])

# ---------------------------------------------------------------- C strings
def m_strcpy(E, st, a, ins): E.write_bytes(st, a[0], E.cstr(st, a[1]) + [0]); return a[0]
def m_stpcpy(E, st, a, ins): c = E.cstr(st, a[1]); E.write_bytes(st, a[0], c + [0]); return at(a[0], len(c))
def m_strcat(E, st, a, ins): n = len(E.cstr(st, a[0])); E.write_bytes(st, at(a[0], n), E.cstr(st, a[1]) + [0]); return a[0]
def m_strncpy(E, st, a, ins):
    n = asint(E, st, a[2]); c = gxm.lazy_cstr(E, st, a[1], n); E.write_bytes(st, a[0], (c + [0] * n)[:n]); return a[0]
def m_strncat(E, st, a, ins):
    n = len(E.cstr(st, a[0])); E.write_bytes(st, at(a[0], n), gxm.lazy_cstr(E, st, a[1], asint(E, st, a[2])) + [0]); return a[0]
def m_strnlen(E, st, a, ins): return len(gxm.lazy_cstr(E, st, a[0], asint(E, st, a[1])))
def m_strdup(E, st, a, ins):
    c = E.cstr(st, a[0]) if len(a) < 2 else gxm.lazy_cstr(E, st, a[0], asint(E, st, a[1]))
    if 'malloc' in faults(st) and E.choose(st, 2, 'strdup fails'): return 0
    p = st.alloc(len(c) + 1, 'malloc'); E.write_bytes(st, p, c + [0]); return p
def span(neg, ptr=False):
    def m(E, st, a, ins):
        xs = E.cstr(st, a[0]); ys = concrete(E.cstr(st, a[1]))
        if ys is None: raise Undecided('character set')
        for k, x in enumerate(xs):
            i = x in ys if type(x) is int else E.decide(st, x[1], [v in ys for v in x[2]])
            if i == neg: return at(a[0], k) if ptr else k
        return 0 if ptr else len(xs)
    return m
def m_memrchr(E, st, a, ins):
    n = asint(E, st, a[2]); xs = E.read_bytes(st, a[0], n)
    for k in range(n - 1, -1, -1):
        if E.cmp(st, 'eq', xs[k], a[1] & 255, 8): return at(a[0], k)
    return 0
def m_strcasestr(E, st, a, ins):
    xs = gxm.fold(E, st, E.cstr(st, a[0])); ys = gxm.fold(E, st, E.cstr(st, a[1])); k = gxm.find_cells(E, st, xs, ys, 0)
    return 0 if k == gxm.NPOS else at(a[0], k)
def m_strtok(E, st, a, ins):
    p = a[0] if a[0] != 0 else E.load(st, a[2], 8); ys = concrete(E.cstr(st, a[1]))
    if p == 0: return 0
    if ys is None: raise Undecided('character set')
    xs = E.cstr(st, p); sep = lambda x: x in ys if type(x) is int else E.decide(st, x[1], [v in ys for v in x[2]])
    k = 0
    while k < len(xs) and sep(xs[k]): k += 1
    if k == len(xs): E.store(st, a[2], 8, at(p, k)); return 0
    j = k
    while j < len(xs) and not sep(xs[j]): j += 1
    if j < len(xs): E.store(st, at(p, j), 1, 0); E.store(st, a[2], 8, at(p, j + 1))
    else: E.store(st, a[2], 8, at(p, j))
    return at(p, k)
def strto(bits):
    def m(E, st, a, ins):
        xs = E.cstr(st, a[0]); base = asint(E, st, a[2]) if len(a) > 2 else 10
        dg = lambda x, s: x in s if type(x) is int else E.decide(st, x[1], [v in s for v in x[2]])
        k = 0
        while k < len(xs) and dg(xs[k], b' \t\n\v\f\r'): k += 1
        neg = False; j = k
        if k < len(xs) and dg(xs[k], b'+-'): neg = E.concretize(st, xs[k]) == 45; k += 1
        if base in (0, 16) and k + 1 < len(xs) and dg(xs[k], b'0') and dg(xs[k + 1], b'xX'): k += 2; base = 16
        elif base == 0: base = 8 if k < len(xs) and dg(xs[k], b'0') else 10
        ok = b'0123456789abcdefghijklmnopqrstuvwxyz'[:base]; ok += ok.upper(); v = 0; n = 0
        while k < len(xs) and dg(xs[k], ok): v = v * base + int(chr(E.concretize(st, xs[k])), 36); k += 1; n += 1
        if len(a) > 1 and a[1] != 0: E.store(st, a[1], 8, at(a[0], k if n else 0))
        if v >= 1 << 63: raise Undecided('number out of range')
        return (-v if neg else v) & ((1 << bits) - 1)
    return m

# ---------------------------------------------------------------- stdio
def target(E, st, f):
    if f == ('p', '@FILE:stderr', 0): return ('p', '@_ZSt4cerr', 0)
    if f == ('p', '@FILE:stdout', 0): return ('p', '@_ZSt4cout', 0)
    if type(f) is tuple and f[0] == 'p' and ('wf', f[1]) in st.X:
        E.region(st, f, 'stream'); return ('p', f[1], 0)
    raise Undecided('output to an unknown FILE')
def m_printf(E, st, a, ins): o = gxm.fmt_cells(E, st, E.cstr(st, a[0]), a[1:]); emit(E, st, ('p', '@_ZSt4cout', 0), o); return len(o)
def m_fprintf(E, st, a, ins): o = gxm.fmt_cells(E, st, E.cstr(st, a[1]), a[2:]); emit(E, st, target(E, st, a[0]), o); return len(o)
def m_puts(E, st, a, ins): emit(E, st, ('p', '@_ZSt4cout', 0), E.cstr(st, a[0]) + [10]); return 1
def m_putchar(E, st, a, ins): emit(E, st, ('p', '@_ZSt4cout', 0), [a[0] & 255 if type(a[0]) is int else a[0]]); return a[0]
def m_fputs(E, st, a, ins): emit(E, st, target(E, st, a[1]), E.cstr(st, a[0])); return 1
def m_fputc(E, st, a, ins): emit(E, st, target(E, st, a[1]), [a[0] & 255 if type(a[0]) is int else a[0]]); return a[0]
def m_fwrite(E, st, a, ins):
    n = asint(E, st, a[1]) * asint(E, st, a[2]); emit(E, st, target(E, st, a[3]), E.read_bytes(st, a[0], n)); return a[2]
def m_perror(E, st, a, ins): emit(E, st, ('p', '@_ZSt4cerr', 0), (E.cstr(st, a[0]) if a[0] != 0 else []) + lit(': error\n'))
def m_strerror(E, st, a, ins): return mkcstr(E, st, 'error')
def m_fflush(E, st, a, ins):
    if a[0] == 0: return 0
    t = target(E, st, a[0]); gxm.m_flush(E, st, [t], ins); return 0xffffffff if stream_fail(E, st, t) else 0
def m_fopen(E, st, a, ins):
    mode = concrete(E.cstr(st, a[1])) or b'r'
    if mode[:1] == b'r' and b'+' not in mode: return gxm_fopen(E, st, a, ins)
    path = E.cstr(st, a[0])
    if 'openw' in faults(st) and E.choose(st, 2, 'open of %s fails' % vis(path)): event(st, 'openw', fskey(path), st.X.get(('fs', fskey(path))), False); event(st, 'fault', 'open'); return 0
    p = st.alloc(512, 'FILE', 0); reg_stream(E, st, p, 'file', 512); st.X[('wf', p[1])] = True
    f = st.X['faults']; st.X['faults'] = frozenset()
    try: gxm.do_open(E, st, p, path)
    finally: st.X['faults'] = f
    return p
gxm_fopen = gxm.m_fopen
def m_fclose(E, st, a, ins):
    if type(a[0]) is tuple and a[0][0] == 'p' and ('wf', a[0][1]) in st.X:
        gxm.m_ofs_close(E, st, a, ins); bad = stream_fail(E, st, a[0])
        if bad: k = find_stream(E, st, a[0]); event(st, 'lost', st.X[k].path, 'F')
        r = st.mem[a[0][1]]; st.mem[a[0][1]] = Region(r.size, 'freed', UNDEF, '', st.own)
        return 0xffffffff if bad else 0
    return gxm.m_fclose(E, st, a, ins)
def m_ferror(E, st, a, ins):
    if a[0] in (('p', '@FILE:stderr', 0), ('p', '@FILE:stdout', 0)) or type(a[0]) is tuple and ('wf', a[0][1]) in st.X: return stream_fail(E, st, target(E, st, a[0]))
    return gxm.m_ferror(E, st, a, ins)
def m_fgets(E, st, a, ins):
    k = fp_key(E, st, a[2]); data, pos, e, err = st.X[k]; n = asint(E, st, a[1]); out = []
    if 'fread' in faults(st) and not st.X.get('readerr') and E.choose(st, 2, 'read error'): st.X[k] = (data, pos, e, True); st.X['readerr'] = True; event(st, 'fault', 'read'); return 0
    while pos < len(data) and len(out) < n - 1:
        c = data[pos]; out.append(c); pos += 1
        if c == 10 if type(c) is int else E.cmp(st, 'eq', c, 10, 8): break
    else: e = e or pos >= len(data) and len(out) < n - 1
    st.X[k] = (data, pos, e, err)
    if not out: return 0
    E.write_bytes(st, a[0], out + [0]); return a[0]
def m_getline_c(E, st, a, ins):
    k = fp_key(E, st, a[2]); data, pos, e, err = st.X[k]; out = []
    if 'fread' in faults(st) and not st.X.get('readerr') and E.choose(st, 2, 'read error'): st.X[k] = (data, pos, e, True); st.X['readerr'] = True; event(st, 'fault', 'read'); return (1 << 64) - 1
    while pos < len(data):
        c = data[pos]; out.append(c); pos += 1
        if c == 10 if type(c) is int else E.cmp(st, 'eq', c, 10, 8): break
    else: e = True
    st.X[k] = (data, pos, e, err)
    if not out: return (1 << 64) - 1
    old = E.load(st, a[0], 8)
    if old != 0: release(E, st, old, 'malloc')
    p = st.alloc(max(120, len(out) + 1), 'malloc'); E.write_bytes(st, p, out + [0]); E.store(st, a[0], 8, p); E.store(st, a[1], 8, max(120, len(out) + 1))
    return len(out)
def m_ungetc(E, st, a, ins):
    k = fp_key(E, st, a[1]); data, pos, e, err = st.X[k]
    if a[0] == gxm.EOF: return a[0]
    if pos: st.X[k] = (data, pos - 1, False, err) if data[pos - 1] == a[0] or type(data[pos - 1]) is tuple else (list(data[:pos - 1]) + [a[0] & 255] + list(data[pos:]), pos - 1, False, err)
    return a[0]
def m_rewind(E, st, a, ins): k = fp_key(E, st, a[0]); st.X[k] = (st.X[k][0], 0, False, False)
def m_fseek(E, st, a, ins):
    k = fp_key(E, st, a[0]); d, pos, e, err = st.X[k]; o = asint(E, st, a[1]); o = gx.sgn(o, 64); w = asint(E, st, a[2])
    st.X[k] = (d, max(0, o + (0, pos, len(d))[w]), False, err); return 0
def m_ftell(E, st, a, ins): return st.X[fp_key(E, st, a[0])][1]
def m_freopen(E, st, a, ins): raise Undecided('freopen')
def m_stat(follow):
    def m(E, st, a, ins):
        path = E.cstr(st, a[0])
        if 'fs' in faults(st) and E.choose(st, 2, 'stat fails'): event(st, 'fault', 'fs'); return 0xffffffff
        t = fs_state(E, st, path, 'stat'); event(st, 'status', fskey(path), follow)
        if follow: t = {'link': 'file', 'dlink': 'absent'}.get(t, t)
        if t == 'absent': return 0xffffffff
        for k in range(0, 144, 8): E.store(st, at(a[1], k), 8, 0)
        E.store(st, at(a[1], 24), 4, {'file': 0o100644, 'dir': 0o40755, 'link': 0o120777, 'dlink': 0o120777}[t]); return 0
    return m
def m_access(E, st, a, ins):
    path = E.cstr(st, a[0]); t = fs_state(E, st, path, 'access'); event(st, 'status', fskey(path), True)
    return 0xffffffff if t in ('absent', 'dlink') else 0
def m_unlink(E, st, a, ins):
    path = E.cstr(st, a[0]); t = fs_state(E, st, path, 'remove')
    if 'fs' in faults(st) and E.choose(st, 2, 'unlink fails'): event(st, 'fault', 'fs'); return 0xffffffff
    if t == 'absent': return 0xffffffff
    event(st, 'remove', fskey(path), t); st.X[('fs', fskey(path))] = 'absent'; return 0
def m_localtime(E, st, a, ins):
    p = st.alloc(56, 'ext'); E.write_bytes(st, p, [('u', 'nd:tm')] * 56); return p
def m_strftime(E, st, a, ins):
    E.write_bytes(st, a[0], [('u', 'nd:tm'), 0]); return 1
def m_setlocale(E, st, a, ins): event(st, 'nd', 'setlocale'); return mkcstr(E, st, 'C')
def m_wcslen(E, st, a, ins):
    n = 0
    while E.load(st, at(a[0], 4 * n), 4) != 0: n += 1
    return n

LIBC = {
    '_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_': m_rb_erase,
    '_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_': m_rb_insert, '_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base': m_rb_inc, '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base': m_rb_inc,
    '_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base': m_rb_dec, '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base': m_rb_dec, '_ZSt11_Hash_bytesPKvmm': m_hash, '_ZnwmRKSt9nothrow_t': m_new, '_ZdlPvRKSt9nothrow_t': gxm.m_delete,
    'strcpy': m_strcpy, 'stpcpy': m_stpcpy, 'strcat': m_strcat, 'strncpy': m_strncpy, 'strncat': m_strncat, 'strnlen': m_strnlen, 'strdup': m_strdup, 'strndup': m_strdup, 'strspn': span(False), 'strcspn': span(True), 'strpbrk': span(True, True),
    'memrchr': m_memrchr, 'strcasestr': m_strcasestr, 'strtok_r': m_strtok, 'strtol': strto(64), 'strtoul': strto(64), '__isoc23_strtol': strto(64), '__isoc23_strtoul': strto(64), 'strtoull': strto(64), '__isoc23_strtoull': strto(64), 'strtoll': strto(64), '__isoc23_strtoll': strto(64), 'atoi': strto(32), 'atol': strto(64),
    'printf': m_printf, 'fprintf': m_fprintf, 'puts': m_puts, 'putchar': m_putchar, 'fputs': m_fputs, 'fputc': m_fputc, 'putc': m_fputc, 'fwrite': m_fwrite, 'perror': m_perror, 'strerror': m_strerror, 'fflush': m_fflush,
    'fopen': m_fopen, 'fopen64': m_fopen, 'fclose': m_fclose, 'ferror': m_ferror, 'fgets': m_fgets, 'getline': m_getline_c, '__getdelim': None, 'ungetc': m_ungetc, 'rewind': m_rewind, 'fseek': m_fseek, 'ftell': m_ftell,
    'stat64': m_stat(True), 'lstat64': m_stat(False), 'stat': m_stat(True), 'lstat': m_stat(False), 'access': m_access, 'unlink': m_unlink, 'remove': m_unlink, 'localtime': m_localtime, 'gmtime': m_localtime, 'gmtime_r': gxm.m_localtime_r,
    'strftime': m_strftime, 'setlocale': m_setlocale, 'wcslen': m_wcslen, 'gx.ecmsg': m_ecmsg, 'gx.ecname': m_ecname,
}
gxm.LIBC.update({k: v for k, v in LIBC.items() if v})
FSN = r'std::filesystem::'; PA = r'std::filesystem::__cxx11::path'
IS = r'std::(basic_)?istream(<char, .*>)?::'
RX = [
    (r'std::__detail::_Prime_rehash_policy::_M_next_bkt\(.*', m_next_bkt), (r'std::__detail::_Prime_rehash_policy::_M_need_rehash\(.*', m_need_rehash),
    (r'std::__detail::_List_node_base::_M_transfer\(.*', m_list_transfer), (r'std::__detail::_List_node_base::_M_reverse\(.*', m_list_reverse),
    (r'std::__cxx11::basic_string<char, .*>::_M_replace_cold\(.*', m_replace_cold),
    (r'std::basic_ostream<char, .*>& std::__ostream_insert<char, .*', m_ostream_insert),
    (r'.*std::operator<<<.*>\(std::basic_ostream<char, .*>&, std::basic_string_view<.*', m_out_sv),
    (r'.*std::operator<<<.*>\(std::basic_ostream<char, .*>&, std::_Setw\)', m_setw), (r'.*std::operator<<<.*>\(std::basic_ostream<char, .*>&, std::_Setfill<char>\)', m_setfill),
    (r'std::(basic_)?ostream(<char, .*>)?::operator<<\(std::ios_base& \(\*\)\(std::ios_base&\)\)', m_iosmanip),
    (r'std::(basic_)?ostream(<char, .*>)?::operator<<\(std::basic_streambuf<char, .*', m_out_buf),
    (r'std::basic_ifstream<char, .*>::basic_ifstream\(\)', m_ifs_ctor), (r'std::basic_ifstream<char, .*>::basic_ifstream\(char const\*.*', m_ifs_ctor_c), (r'std::basic_ifstream<char, .*>::basic_ifstream(<.*>)?\(std::(__cxx11::basic_string|filesystem).*', m_ifs_ctor_s),
    (r'std::basic_ifstream<char, .*>::open\(char const\*.*', m_ifs_open_c), (r'.*std::basic_ifstream<char, .*>::open(<.*>)?\(std::(__cxx11|filesystem).*', m_ifs_open_s),
    (r'std::basic_ifstream<char, .*>::~basic_ifstream\(\)', m_ifs_dtor), (r'std::basic_ifstream<char, .*>::is_open\(\)( const)?', gxm.m_ofs_isopen), (r'std::basic_ifstream<char, .*>::close\(\)', m_ifs_close), (r'std::basic_(if|istring)stream<char, .*>::rdbuf\(\) const', m_rdbuf),
    (r'std::__cxx11::basic_istringstream<char, .*>::basic_istringstream\(std::__cxx11::basic_string<.*', m_iss_ctor), (r'std::__cxx11::basic_istringstream<char, .*>::~basic_istringstream\(\)', gxm.m_ss_dtor),
    (r'std::__cxx11::basic_stringstream<char, .*>::basic_stringstream\(std::__cxx11::basic_string<.*', m_ss_ctor_s), (r'std::__cxx11::basic_[io]?stringstream<char, .*>::str\(std::__cxx11::basic_string<.*', m_ss_set), (r'std::__cxx11::basic_istringstream<char, .*>::str\(\) const( ?&+)?', gxm.m_ss_str),
    (r'std::basic_istream<char, .*>& std::getline<char, .*', m_getline), (IS + r'get\((char&)?\)', m_is_get), (IS + r'peek\(\)', m_is_peek), (IS + r'read\(char\*, long\)', m_is_read), (r'std::basic_istream<char, .*>& std::operator>><char, .*>\(std::basic_istream<.*>&, std::__cxx11::basic_string<.*', m_is_word),
    (r'std::basic_ios<char, .*>::eof\(\) const', m_eof), (r'std::basic_ios<char, .*>::good\(\) const', m_good2), (r'std::basic_ios<char, .*>::bad\(\) const', m_bad), (r'std::basic_ios<char, .*>::exceptions\(std::_Ios_Iostate\)', m_exceptions),
    (r'std::basic_streambuf<char, .*>::sgetc\(\)', m_buf_getc(False)), (r'std::basic_streambuf<char, .*>::sbumpc\(\)', m_buf_getc(True)),
    (r'std::_V2::(system|generic)_category\(\)', m_category),
    (FSN + r'status\(' + PA + r' const&, std::error_code&\)', m_status_ec(True)), (FSN + r'symlink_status\(' + PA + r' const&, std::error_code&\)', m_status_ec(False)),
    (FSN + r'remove\(' + PA + r' const&, std::error_code&\)', with_ec(gxm.m_fs_remove, None, 0)), (FSN + r'create_director(ies|y)\(' + PA + r' const&, std::error_code&\)', with_ec(gxm.m_mkdirs, None, 0)),
    (FSN + r'rename\(' + PA + r' const&, ' + PA + r' const&\)', m_fs_rename), (FSN + r'rename\(' + PA + r' const&, ' + PA + r' const&, std::error_code&\)', with_ec(m_fs_rename, None, None)),
    (FSN + r'file_size\(' + PA + r' const&\)', m_fs_size), (FSN + r'file_size\(' + PA + r' const&, std::error_code&\)', with_ec(m_fs_size, None, (1 << 64) - 1)),
    (PA + r'::_M_concat\(.*', m_path_concat), (PA + r'::_M_append\(.*', m_path_append_sv), (PA + r'::remove_filename\(\)', m_path_rmname), (PA + r'::has_filename\(\) const', m_path_hasname), (PA + r'::has_parent_path\(\) const', m_path_hasparent),
    (PA + r'::has_root_(directory|path)\(\) const', m_path_hasroot), (PA + r'::_M_find_extension\(\) const', m_path_findext),
    (r'std::locale::(global|classic|operator=)\(.*', m_nop),
]
gxm.RX[:0] = [(re.compile(p), m) for p, m in RX]

def setup(E):
    def vt(name, w):
        r = Region(96, 'ext', 0, name)
        for k, v in w.items(): r.w[k] = (8, v)
        E.base['@VT:' + name] = r
    vt('ifs', {32 - 24: 256}); vt('iss', {32 - 24: 120})
    vt('errcat', {32: ('f', 'gx.ecmsg'), 16: ('f', 'gx.ecname'), 0: ('f', 'gx.nop'), 8: ('f', 'gx.nop')})
    r = Region(8, 'ext', 0, 'error category'); r.w[0] = (8, ('p', '@VT:errcat', 0)); E.base['@errcat'] = r
