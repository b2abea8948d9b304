"""Behaviour-preserving edits of the loader templates, in bundles: the loader analyses must report nothing on any of them.
usage: same_loader.py [bundle regex]   (runs the analyses on the configurations the bundle concerns)"""
import sys, os, re, subprocess, shutil, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'src/templates/c.c'; X = 'src/templates/cxx.cpp'; K = 'src/templates/common.c'; P = 'src/templates/plugin.c'; N = 'src/templates/minimal.h'; NX = 'src/templates/minimal_cxxeh.hpp'
B = {}
B['c-structure'] = ('^c-', [
(C, '''    gdo_hndl.libpath[0] = 0;

    /* set pointers back to NULL */
    gdo_hndl.handle = NULL;
    GDO_RAWPTR_%%symbol%% = NULL;

    return true;
''', '''    _gdo_forget();

    return true;
'''),
(C, '''    gdo_hndl.libpath[0] = 0;

    /* set pointers back to NULL */
    gdo_hndl.handle = NULL;
    GDO_RAWPTR_%%symbol%% = NULL;
}
''', '''    _gdo_forget();
}
'''),
(C, '''/* strstr() / wcsstr() */
''', '''/* forget everything about the library */
GDO_INLINE void _gdo_forget(void)
{
    GDO_RAWPTR_%%symbol%% = NULL;
    gdo_hndl.handle = NULL;
    gdo_hndl.libpath[0] = 0;
}

/* strstr() / wcsstr() */
'''),
(C, '''    /* consider it an error if the library was already loaded */
    if (gdo_lib_is_loaded()) {
        _gdo_save_to_errbuf(_T("library already loaded"));
        return false;
    }

    /* dlfcn: an empty filename will actually return a handle to
     * the main program, but we don't want that */
    if (!filename || *filename == 0) {
        GDO_SET_LAST_ERRNO(ERROR_INVALID_NAME);
        _gdo_save_to_errbuf(_T("empty filename"));
        return false;
    }

    _gdo_load_library(filename, flags, new_namespace);

    if (!gdo_lib_is_loaded()) {
        _gdo_save_error(filename);
        return false;
    }

    return true;
''', '''    bool ok = false;

    if (gdo_hndl.handle) {
        _gdo_save_to_errbuf(_T("library already loaded"));
    } else if (filename && filename[0]) {
        _gdo_load_library(filename, flags, new_namespace);
        ok = gdo_lib_is_loaded();

        if (!ok) {
            _gdo_save_error(filename);
        }
    } else {
        GDO_SET_LAST_ERRNO(ERROR_INVALID_NAME);
        _gdo_save_to_errbuf(_T("empty filename"));
    }

    return ok;
'''),
(C, '''    if (!gdo_hndl.free_lib_reg) {
        if (atexit(gdo_force_free_lib) == 0) {
            gdo_hndl.free_lib_reg = true;
        } else {
            _gdo_save_to_errbuf(_T("atexit(): failed to register `gdo_force_free_lib()'"));
        }
    }

    return gdo_hndl.free_lib_reg;
''', '''    if (gdo_hndl.free_lib_reg) {
        return true;
    }

    if (atexit(gdo_force_free_lib) != 0) {
        _gdo_save_to_errbuf(_T("atexit(): failed to register `gdo_force_free_lib()'"));
        return false;
    }

    gdo_hndl.free_lib_reg = true;

    return true;
'''),
(C, '''    if (false
        || GDO_RAWPTR_%%symbol%% != NULL
    ) {
        return true;
    }

    return false;
}
''', '''    return !gdo_no_symbols_loaded();
}
'''),
(C, '''    if (true
        && GDO_RAWPTR_%%symbol%% != NULL
    ) {
        return true;
    }

    return false;
''', '''    size_t missing = 0;
@
    if (!GDO_RAWPTR_%%symbol%%) {@
        missing++;@
    }

    return missing == 0;
'''),
])
B['c-text'] = ('^c-', [
(C, '''    if (msg) {
        GDO_SNPRINTF(gdo_hndl.errbuf, _T("%s"), msg);
    } else {
        gdo_hndl.errbuf[0] = 0;
    }
''', '''#ifdef _WIN32
    GDO_SNPRINTF(gdo_hndl.errbuf, _T("%s"), msg ? msg : _T(""));
#else
    size_t n = 0;

    if (msg) {
        n = strlen(msg);

        if (n >= GDO_BUFLEN) {
            n = GDO_BUFLEN - 1;
        }
        memcpy(gdo_hndl.errbuf, msg, n);
    }

    gdo_hndl.errbuf[n] = 0;
#endif
'''),
(C, '''    switch (symbol_num)
    {
    /* %%symbol%% */@
    case GDO_LOAD_%%symbol%%:@
        if (!GDO_RAWPTR_%%symbol%%) {@
            GDO_RAWPTR_%%symbol%% =@
                (%%sym_type%%)@
                    _gdo_sym("%%symbol%%", _T("%%symbol%%"));@
        }@
        return (GDO_RAWPTR_%%symbol%% != NULL);@

    default:
        break;
    }
''', '''@
    if (symbol_num == GDO_LOAD_%%symbol%%) {@
        if (GDO_RAWPTR_%%symbol%%) {@
            return true;@
        }@
        GDO_RAWPTR_%%symbol%% = (%%sym_type%%) _gdo_sym("%%symbol%%", _T("%%symbol%%"));@
        return GDO_RAWPTR_%%symbol%% ? true : false;@
    }
'''),
(C, '''    if (gdo_hndl.errbuf[0] == 0) {
        _gdo_save_to_errbuf("no error");
    }

    return gdo_hndl.errbuf;
''', '''    if (!*gdo_hndl.errbuf) {
        strcpy(gdo_hndl.errbuf, "no error");
    }

    return &gdo_hndl.errbuf[0];
'''),
(C, '''    size_t len = strlen(lm->l_name) + 1;

    if (len > GDO_BUFLEN) {
        _gdo_save_to_errbuf("buffer is too small to hold the library path");
        return false;
    }

    memcpy(gdo_hndl.libpath, lm->l_name, len);

    return true;
''', '''    int n = snprintf(gdo_hndl.libpath, sizeof(gdo_hndl.libpath), "%s", lm->l_name);

    if (n < 0 || (size_t)n >= sizeof(gdo_hndl.libpath)) {
        gdo_hndl.libpath[0] = 0;
        _gdo_save_to_errbuf("buffer is too small to hold the library path");
        return false;
    }

    return true;
'''),
(C, '''    fprintf(stderr, "%s: %s: %s\\n", pfx, sym, msg);
''', '''    fputs(pfx, stderr);
    fputs(": ", stderr);
    fputs(sym, stderr);
    fputs(": ", stderr);
    fputs(msg, stderr);
    fputc('\\n', stderr);
'''),
(C, '''    if (!gdo_lib_is_loaded()) {
        msg = _T("library not loaded");
    } else {
        msg = _T("symbol not loaded");
    }
''', '''    msg = gdo_lib_is_loaded() ? _T("symbol not loaded") : _T("library not loaded");
'''),
(K, '''    if (path && (n = strlen(path)) < bufsize) {
        memcpy(buf, path, n + 1);
        free(path);
        return true;
    }

    free(path);
    return false;
''', '''    bool ok = false;

    if (path) {
        n = strlen(path) + 1;
        ok = (n <= bufsize);

        if (ok) {
            strcpy(buf, path);
        }
    }

    free(path);
    return ok;
'''),
(K, '''        if (rv == 4 && lm->l_addr >= start && lm->l_addr < end) {
            /* match */
            break;
        }

        free(path);
        path = NULL;
''', '''        if (rv != 4 || lm->l_addr < start || lm->l_addr >= end) {
            free(path);
            path = NULL;
            continue;
        }

        /* match */
        break;
'''),
])
B['c-copy'] = ('^c-', [
(C, '''    if (msg) {
        GDO_SNPRINTF(gdo_hndl.errbuf, _T("%s"), msg);
    } else {
        gdo_hndl.errbuf[0] = 0;
    }
''', '''    size_t i = 0;

    if (msg) {
        for ( ; i < GDO_BUFLEN - 1 && msg[i] != 0; i++) {
            gdo_hndl.errbuf[i] = msg[i];
        }
    }

    gdo_hndl.errbuf[i] = 0;
'''),
(C, '''    memcpy(gdo_hndl.libpath, lm->l_name, len);

    return true;
''', '''    strncpy(gdo_hndl.libpath, lm->l_name, GDO_BUFLEN - 1);
    gdo_hndl.libpath[GDO_BUFLEN - 1] = 0;

    return true;
'''),
(C, '''    if ((GDO_RAWPTR_%%symbol%% =@
            (%%sym_type%%)@
                _gdo_sym("%%symbol%%", _T("%%symbol%%"))) == NULL) {@
        return false;@
    }@
''', '''    GDO_RAWPTR_%%symbol%% = (%%sym_type%%) _gdo_sym("%%symbol%%", _T("%%symbol%%"));@
@
    if (!GDO_RAWPTR_%%symbol%%) {@
        return false;@
    }@
'''),
(K, '''    return dlopen(filename, flags);
''', '''    gdo_hmod_t h = dlopen(filename, flags);

    return h;
'''),
(K, '''        int rv = sscanf(line, "%jx-%jx %4[rwxsp-] %*u %*u:%*u %*u %m[^\\n]",
                        &start, &end, mode, &path);
''', '''        int rv;

        start = end = 0;
        rv = sscanf(line, "%jx-%jx %4[rwxsp-] %*u %*u:%*u %*u %m[^\\n]", &start, &end, mode, &path);
'''),
])
B['c-copy2'] = ('^c-', [
(C, '''    memcpy(gdo_hndl.libpath, lm->l_name, len);

    return true;
''', '''    memcpy(gdo_hndl.libpath, lm->l_name, len - 1);
    gdo_hndl.libpath[len - 1] = '\\0';

    return true;
'''),
(K, '''    if (path && (n = strlen(path)) < bufsize) {
        memcpy(buf, path, n + 1);
        free(path);
        return true;
    }

    free(path);
    return false;
''', '''    bool fits = (path != NULL);

    if (fits) {
        n = strlen(path);
        fits = (bufsize > n);
    }

    if (fits) {
        memcpy(buf, path, n);
        buf[n] = 0;
    }

    free(path);
    return fits;
'''),
])
B['cxx-structure'] = ('^cxx-', [
(X, '''    bool rv = true;

    clear_error();

    if (lib_loaded()) {
        rv = _gdo_call_dlclose(m_handle);

        /* always succeed if `force == true` */
        if (force) {
            rv = true;
        }
    }

    if (!rv) {
''', '''    clear_error();

    const bool closed = !m_handle || _gdo_call_dlclose(m_handle);

    if (!closed && !force) {
'''),
(X, '''    /* consider it an error if the library was already loaded */
    if (lib_loaded()) {
        m_errmsg = "library already loaded";
        return false;
    }

    if (filename.empty()) {
        GDO_SET_LAST_ERRNO(ERROR_INVALID_NAME);
        m_errmsg = "empty filename";
        return false;
    }

    load_lib(filename);

    if (!lib_loaded()) {
        save_error(filename);
        return false;
    }

    return true;
''', '''    bool ok = false;

    if (lib_loaded()) {
        m_errmsg.assign("library already loaded");
    } else if (filename.size() == 0) {
        GDO_SET_LAST_ERRNO(ERROR_INVALID_NAME);
        m_errmsg.assign("empty filename");
    } else {
        load_lib(filename);
        ok = lib_loaded();

        if (!ok) {
            save_error(filename);
        }
    }

    return ok;
'''),
(X, '''        const size_t len = ::strlen(symbol);
        const char *curr;
        size_t curr_len;
@
        curr = "%%symbol%%";@
        curr_len = sizeof("%%symbol%%") - 1;@
        if (len == curr_len && ::strcmp(symbol + pfxlen, curr + pfxlen) == 0) {@
''', '''        const std::string name(symbol);
@
        if (name == "%%symbol%%") {@
'''),
(X, '''    m_errmsg = "unknown symbol: " + std::string(symbol);
''', '''    std::stringstream strm;
    strm << "unknown symbol: " << symbol;
    m_errmsg = strm.str();
'''),
(X, '''    if (m_free_lib_in_dtor) {
        free(true);
    }
''', '''    if (!m_free_lib_in_dtor) {
        return;
    }
    free(true);
'''),
(X, '''    return (load() && load_all_symbols());
''', '''    if (!load()) {
        return false;
    }
    return load_all_symbols();
'''),
])
B['cxx-text'] = ('^cxx-', [
(X, '''    const char *ptr = ::dlerror();

    /* there is no message if a symbol was found but its value is NULL */
    m_errmsg = ptr ? ptr : "unknown error";
''', '''    if (const char *ptr = ::dlerror()) {
        m_errmsg.assign(ptr);
    } else {
        m_errmsg = "unknown error";
    }
'''),
(X, '''    if (true
        && GDO_RAWPTR_%%symbol%% == nullptr
    ) {
        return true;
    }

    return false;
''', '''    return !any_symbol_loaded();
'''),
(X, '''    T ptr = reinterpret_cast<T>(_gdo_call_dlsym(m_handle, symbol));

    if (!ptr) {
        save_error();
    }

    return ptr;
''', '''    void *addr = _gdo_call_dlsym(m_handle, symbol);

    if (addr == nullptr) {
        save_error();
        return nullptr;
    }

    return reinterpret_cast<T>(addr);
'''),
(X, '''    m_libpath = lm->l_name;

    return true;
''', '''    const std::string path(lm->l_name);
    m_libpath.swap(const_cast<std::string &>(path));

    return !m_libpath.empty();
''' if 0 else '''    std::string path(lm->l_name);
    m_libpath = std::move(path);

    return true;
'''),
(X, '''            std::string msg = _loader.error();

            if (msg.find(GDO_DEFAULT_LIBA) != std::string::npos) {
                /* library name is already part of error message */
                sstr << "error: " << sym << ": " << msg;
            } else {
                sstr << "error: " GDO_DEFAULT_LIB ": " << sym << ": " << msg;
            }

            msg_callback(sstr.str().c_str());
''', '''            const std::string msg = _loader.error();
            std::string text = "error: ";

            /* library name may already be part of error message */
            if (msg.find(GDO_DEFAULT_LIBA) == std::string::npos) {
                text += GDO_DEFAULT_LIB;
                text += ": ";
            }

            text.append(sym);
            text += ": " + msg;

            msg_callback(text.c_str());
'''),
(X, '''            if (!dl::lib_loaded()) {
                sstr << "fatal error: " << sym << ": library not loaded";
            } else {
                sstr << "fatal error: " << sym << ": symbol not loaded";
            }
''', '''            sstr << "fatal error: " << sym << (dl::lib_loaded() ? ": symbol" : ": library") << " not loaded";
'''),
(X, '''    m_errmsg = "unknown symbol number: " + std::to_string(symbol_num);
''', '''    m_errmsg = "unknown symbol number: ";
    m_errmsg += std::to_string(symbol_num);
'''),
(X, '''    if (m_message_callback) {
        return m_message_callback;
    }

    return default_message_callback;
''', '''    return m_message_callback ? m_message_callback : default_message_callback;
'''),
(X, '''    m_filename      = filename;
    m_flags         = flags;
''', '''    std::string copy(filename);
    m_filename.swap(copy);
    m_flags         = flags;
'''),
])
B['minimal'] = ('^min-', [
(N, '''    if (!filename) {
        return "filename is <NULL>";
    } else if (!*filename) {
        return "filename is empty";
    }

    /* free a previously loaded library */
    gdo_free_library();
''', '''    if (filename == NULL || filename[0] == 0) {
        return filename ? "filename is empty" : "filename is <NULL>";
    }

    /* free a previously loaded library */
    if (gdo_hndl.handle) {
        gdo_free_library();
    }
'''),
(N, '''    gdo_hndl.GDO_PTR_%%symbol%% =@
        (%%sym_type%%)@
            _GDO_LOAD_SYM("%%symbol%%");@
    if (!gdo_hndl.GDO_PTR_%%symbol%%) {@
''', '''    if ((gdo_hndl.GDO_PTR_%%symbol%% = (%%sym_type%%) _GDO_LOAD_SYM("%%symbol%%")) == NULL) {@
'''),
(NX, '''        if (!handle) {
            throw LibraryError(filename);
        }
''', '''        if (handle == nullptr) {
            const std::string name(filename);
            throw LibraryError(name);
        }
'''),
(NX, '''        if (filename == NULL) {
            throw LibraryError("<NULL>");
        } else if (*filename == 0) {
            throw LibraryError("<EMPTY>");
        }
''', '''        if (!filename || !*filename) {
            throw LibraryError(filename ? "<EMPTY>" : "<NULL>");
        }
'''),
])
B['plugin'] = ('^plugin', [
(P, '''    for (size_t i = 0; i < plug->num; i++) {
        free(plug->list[i].filename);

        if (plug->list[i].handle) {
            _gdo_call_dlclose(plug->list[i].handle);
        }
    }
''', '''    size_t n = plug->num;

    while (n > 0) {
        gdo_handle_t *h = &plug->list[--n];

        if (h->handle != NULL) {
            _gdo_call_dlclose(h->handle);
            h->handle = NULL;
        }
        free(h->filename);
    }
'''),
(P, '''        if (!files[i] || *files[i] == 0) {
            /* empty filename */
            continue;
        }

        /* copy filename first */
        plug->list[i].filename = GDO_STRDUP(files[i]);

        if (!plug->list[i].filename) {
            gdo_release_plugins(plug);
            return NULL;
        }

        /* load plugin */
        if ((plug->list[i].handle = GDO_LOAD_LIB(files[i])) == NULL) {
            continue;
        }
''', '''        const gdo_char_t *name = files[i];
        gdo_handle_t *h = plug->list + i;

        if (name == NULL || name[0] == 0) {
            /* empty filename */
            continue;
        }

        /* copy filename first */
        if ((h->filename = GDO_STRDUP(name)) == NULL) {
            gdo_release_plugins(plug);
            return NULL;
        }

        /* load plugin */
        h->handle = GDO_LOAD_LIB(name);

        if (!h->handle) {
            continue;
        }
'''),
])
RUN = r'''
import sys, re, os
sys.path.insert(0, %r + '/sa'); os.chdir(%r)
import units_loader as L, units_min, units_plug, build, multiprocessing as mp
build.irdump(); build.generator()
pat = sys.argv[1]
def go(j):
    try: r = j[1](*j[2])
    except Exception as e: return j[0], ['EXC ' + str(e)[:500]], []
    return j[0], ['%%s %%s %%s:%%s %%s' %% (v['prop'], v['rule'], v['function'], v['line'], v['message'][:160]) for v in r['violations']], r.get('undecided', [])
J = [('loader', c.name, c) for c in L.configs('quick')]
jobs = [(c.name, L.analyse, (c,)) for c in L.configs('quick')] + [j[:3] for j in units_min.jobs('quick')] + [j[:3] for j in units_plug.jobs('quick')]
jobs = [j for j in jobs if re.search(pat, j[0])]
print(len(jobs), 'units'); sys.stdout.flush()
with mp.Pool(int(os.environ.get('JOBS', 4)), maxtasksperchild=1) as p:
    A = {}
    for n, v, u in p.imap_unordered(go, jobs, chunksize=1):
        for x in set(v): A.setdefault(x.split(' [')[0], []).append((n, x))
        if u: print('  undecided', n, str(u)[:300])
for k in sorted(A): print('  ALARM x%%d %%s: %%s' %% (len(A[k]), A[k][0][0], A[k][0][1][:400]))
''' % (VERIF, VERIF)
def main():
    pat = sys.argv[1] if len(sys.argv) > 1 else '.'
    for name, (units, edits) in B.items():
        if not re.search(pat, name): continue
        d = tempfile.mkdtemp(prefix='samel.', dir='/tmp'); tree = d + '/repo'
        try:
            subprocess.run(['cp', '-a', '/repo', tree], check=True)
            bad = False
            for f, old, new in edits:
                p = os.path.join(tree, f); t = open(p).read()
                if t.count(old) != 1: print('%s: edit of %s matches %d times: %s' % (name, f, t.count(old), old[:80])); bad = True; continue
                open(p, 'w').write(t.replace(old, new))
            if bad: continue
            b = subprocess.run(['ninja', '-C', tree + '/_build'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if b.returncode: print('%s: does not build: %s' % (name, [l for l in b.stdout.decode().splitlines() if 'error' in l][:3])); continue
            tests = subprocess.run(['meson', 'test', '-C', tree + '/_build', '--no-rebuild'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode
            print(name, 'tests', tests); sys.stdout.flush()
            r = subprocess.run(['python3', '-c', RUN, units], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, GDO_REPO=tree))
            print(r.stdout.decode('utf8', 'replace')[-20000:]); sys.stdout.flush()
        finally: shutil.rmtree(d)
if __name__ == '__main__': main()
