C = 'src/templates/c.c'; X = 'src/templates/cxx.cpp'; K = 'src/templates/common.c'; H = 'src/templates/c.h'; XH = 'src/templates/cxx.hpp'; P = 'src/templates/plugin.c'; N = 'src/templates/minimal.h'; NX = 'src/templates/minimal_cxxeh.hpp'
CO = '^c-(default|wrap|lazy)$'; XO = '^cxx-(default|wrap)/main$'; XS = '^cxx-(default|wrap)/'
M = [
 ('c-loadall-ignore', 'C01', C, "_gdo_sym(\"%%symbol%%\", _T(\"%%symbol%%\"))) == NULL) {@\n        return false;@", "_gdo_sym(\"%%symbol%%\", _T(\"%%symbol%%\"))) == NULL) {@\n        continue_ = false;@", CO) if 0 else
 ('c-allq-any', 'C01', C, "if (gdo_all_symbols_loaded()) {", "if (gdo_any_symbol_loaded()) {", CO),
 ('cxx-allq-any', 'C01', X, "if (all_symbols_loaded()) {", "if (any_symbol_loaded()) {", XO),
 ('c-free-noreset', 'C02', C, "    gdo_hndl.handle = NULL;\n    GDO_RAWPTR_%%symbol%% = NULL;\n\n    return true;", "    gdo_hndl.handle = NULL;\n    GDO_RAWPTR_%%func_symbol%% = NULL;\n\n    return true;", CO),
 ('c-free-nolibpath', 'C02', C, "    gdo_hndl.libpath[0] = 0;\n\n    /* set pointers", "    /* set pointers", CO),
 ('c-free-reset-early', 'C02', C, "    _gdo_clear_error();\n\n    if (gdo_lib_is_loaded()) {\n        if (!_gdo_call_dlclose(gdo_hndl.handle))", "    _gdo_clear_error();\n    gdo_hndl.libpath[0] = 0;\n\n    if (gdo_lib_is_loaded()) {\n        if (!_gdo_call_dlclose(gdo_hndl.handle))", CO),
 ('cxx-free-rv', 'C02', X, "        /* always succeed if `force == true` */\n        if (force) {", "        if (!force) {", XO),
 ('cxx-dtor-noforce', 'C02', X, "        free(true);", "        free();", XS),
 ('c-load-noloadedcheck', 'C03', C, "    if (gdo_lib_is_loaded()) {\n        _gdo_save_to_errbuf(_T(\"library already loaded\"));\n        return false;\n    }\n", "", CO),
 ('c-load-noempty', 'C03', C, "if (!filename || *filename == 0) {\n        GDO_SET_LAST_ERRNO(ERROR_INVALID_NAME)", "if (!filename) {\n        GDO_SET_LAST_ERRNO(ERROR_INVALID_NAME)", CO),
 ('c-dlmopen-flags', 'C03', K, "return dlmopen(LM_ID_NEWLM, filename, flags);", "return dlmopen(LM_ID_BASE, filename, flags);", CO),
 ('c-dlopen-flags', 'C03', K, "return dlopen(filename, flags);", "return dlopen(filename, flags | RTLD_GLOBAL);", CO),
 ('cxx-load-ns', 'C03', X, "    m_new_namespace = new_namespace;\n\n    return load_filename(m_filename);", "    return load_filename(m_filename);", XS),
 ('c-name-substr', 'C04', C, "if (len == curr_len && strcmp(symbol + pfxlen, curr + pfxlen) == 0) {@", "if (strncmp(symbol + pfxlen, curr + pfxlen, len - pfxlen) == 0) {@", CO),
 ('c-num-noreturn', 'C04', C, "        return (GDO_RAWPTR_%%symbol%% != NULL);@\n\n    default:", "        return true;@\n\n    default:", CO),
 ('c-noq', 'C04', C, "        && GDO_RAWPTR_%%symbol%% == NULL\n", "        && GDO_RAWPTR_%%func_symbol%% == NULL\n", CO),
 ('cxx-name-len', 'C04', X, "if (len == curr_len && ::strcmp(", "if (::strncmp(symbol, curr, len) == 0 || ::strcmp(", XO),
 ('cxx-fallthrough', 'C04', X, "        if (!GDO_RAWPTR_%%symbol%%) {@\n            GDO_RAWPTR_%%symbol%% =@\n                sym_load<%%sym_type%%>@\n                    (\"%%symbol%%\");@\n        }@\n        return (GDO_RAWPTR_%%symbol%% != nullptr);@\n\n", "        GDO_RAWPTR_%%symbol%% =@\n                sym_load<%%sym_type%%>@\n                    (\"%%symbol%%\");@\n        return (GDO_RAWPTR_%%symbol%% != nullptr);@\n\n", XO),
 ('c-sym-noerr', 'C06', C, "    if (!ptr) {\n        _gdo_save_error(msg);", "    if (!ptr && !msg) {\n        _gdo_save_error(msg);", CO),
 ('c-noclear', 'C06', C, "GDO_LINKAGE bool gdo_load_symbol(int symbol_num)\n{\n    _gdo_clear_error();", "GDO_LINKAGE bool gdo_load_symbol(int symbol_num)\n{\n", CO),
 ('cxx-noclear', 'C06', X, "bool gdo::dl::load_all_symbols()\n{\n    clear_error();", "bool gdo::dl::load_all_symbols()\n{\n", XO),
 ('cxx-null-dlerror', 'C08', X, 'm_errmsg = ptr ? ptr : "unknown error";', 'm_errmsg = ptr;', XO),
 ('c-fmt', 'C07', C, '    if (msg) {\n        GDO_SNPRINTF(gdo_hndl.errbuf, _T("%s"), msg);', '    if (msg) {\n        snprintf(gdo_hndl.errbuf, sizeof(gdo_hndl.errbuf), msg);', CO),
 ('c-off-by-one', 'C07', C, "    size_t len = strlen(lm->l_name) + 1;", "    size_t len = strlen(lm->l_name);", CO),
 ('c-memcpy-bound', 'C07', C, "    if (len > GDO_BUFLEN) {\n        _gdo_save_to_errbuf(\"buffer is too small to hold the library path\");\n        return false;\n    }\n\n    memcpy(gdo_hndl.libpath, lm->l_name, len);", "    if (len > GDO_BUFLEN + 1) {\n        _gdo_save_to_errbuf(\"buffer is too small to hold the library path\");\n        return false;\n    }\n\n    memcpy(gdo_hndl.libpath, lm->l_name, len);", CO),
 ('k-procmap-bound', 'C07', K, "(n = strlen(path)) < bufsize", "(n = strlen(path)) <= bufsize", CO),
 ('k-procmap-leak', 'C08', K, "    free(line);\n    fclose(fp);", "    fclose(fp);", CO),
 ('k-procmap-fclose', 'C08', K, "    free(line);\n    fclose(fp);", "    free(line);\n    if (path) fclose(fp);", CO),
 ('k-procmap-uaf', 'C08', K, "        free(path);\n        path = NULL;", "        free(path);", CO),
 ('k-procmap-range', 'C08', K, "lm->l_addr >= start && lm->l_addr < end", "lm->l_addr >= start", CO),
 ('k-procmap-dfree', 'C08', K, "        memcpy(buf, path, n + 1);\n        free(path);\n        return true;", "        memcpy(buf, path, n + 1);\n        free(path);\n        n = 1;\n        if (n == 0) return true;", CO),
 ('cxx-wrap-return', 'C05', X, "            msg_callback(sstr.str().c_str());\n            std::abort();", "            msg_callback(sstr.str().c_str());", XO),
 ('cxx-wrap-nosym', 'C05', X, "sstr << \"fatal error: \" << sym << \": symbol not loaded\";", "sstr << \"fatal error: symbol not loaded\";", XO),
 ('cxx-lazy-all', 'C05', X, "            if (_loader.load_symbol(load)) {\n                return;\n            }\n# else", "            if (_loader.load_all_symbols()) {\n                return;\n            }\n# else", '^cxx-lazy/main$'),
 ('cxx-auto-exit0', 'C05', X, "std::exit(1);", "std::exit(0);", '^cxx-(lazy|autoload)/main$'),
 ('cxx-auto-partial', 'C05', X, "            if (_loader.load_all_symbols()) {\n                return;\n            }\n", "            if (_loader.load_all_symbols() || _loader.any_symbol_loaded()) {\n                return;\n            }\n", '^cxx-(lazy|autoload)/main$'),
 ('c-auto-partial', 'C05', C, "    if (gdo_load_all_symbols()) {\n        return;", "    if (gdo_load_all_symbols() || gdo_any_symbol_loaded()) {\n        return;", '^c-(lazy|autoload)$'),
 # behaviour-preserving
 ('same-c-helper', 'C02', C, "GDO_LINKAGE bool gdo_free_lib(void)\n{\n    _gdo_clear_error();\n\n    if (gdo_lib_is_loaded()) {\n        if (!_gdo_call_dlclose(gdo_hndl.handle))\n        {", "GDO_INLINE int _gdo_try(void)\n{\n    bool ok = _gdo_call_dlclose(gdo_hndl.handle);\n    return ok ? 0 : 1;\n}\nGDO_LINKAGE bool gdo_free_lib(void)\n{\n    _gdo_clear_error();\n\n    if (gdo_lib_is_loaded()) {\n        if (_gdo_try() != 0)\n        {", CO),
 ('same-k-loop', 'C08', K, "    while (getline(&line, &n, fp) != -1) {", "    for (;;) {\n        ssize_t got = getline(&line, &n, fp);\n        if (got < 0) break;", CO),
 ('same-k-strdup', 'C07', K, "(n = strlen(path)) < bufsize", "bufsize > (n = strlen(path))", CO),
 ('same-c-memcpy', 'C07', C, "    size_t len = strlen(lm->l_name) + 1;\n\n    if (len > GDO_BUFLEN) {", "    const size_t plain = strlen(lm->l_name);\n    size_t len = plain + 1;\n\n    if (plain >= GDO_BUFLEN) {", CO),
 ('same-cxx-free', 'C02', X, "    bool rv = true;\n\n    clear_error();\n\n    if (lib_loaded()) {\n        rv = _gdo_call_dlclose(m_handle);\n\n        /* always succeed if `force == true` */\n        if (force) {\n            rv = true;\n        }\n    }\n", "    clear_error();\n    const bool closed = !lib_loaded() || _gdo_call_dlclose(m_handle);\n    const bool rv = closed || force;\n", XO),
 ('same-cxx-err', 'C06', X, 'return m_errmsg.empty() ? "no error" : m_errmsg;', 'std::string rv = m_errmsg;\n    if (rv.size() == 0) { rv.assign("no "); rv += "error"; }\n    return rv;', XO),
 ('same-cxx-not-loaded', 'C05', X, 'sstr << "fatal error: " << sym << ": symbol not loaded";', 'std::string s = "fatal error: "; s.append(sym); s += ": symbol not loaded"; sstr << s;', XO),

 ('p-filename-alias', 'C09', P, "plug->list[i].filename = GDO_STRDUP(files[i]);", "plug->list[i].filename = GDO_STRDUP(files[0]);"),
 ('p-num-i', 'C09', P, "    plug->num = num;", "    plug->num = num - 1;"),
 ('p-break', 'C09', P, "if ((plug->list[i].handle = GDO_LOAD_LIB(files[i])) == NULL) {\n            continue;", "if ((plug->list[i].handle = GDO_LOAD_LIB(files[i])) == NULL) {\n            break;"),
 ('p-leak-close', 'C09', P, "        if (plug->list[i].handle) {\n            _gdo_call_dlclose", "        if (plug->list[i].handle && plug->list[i].filename[0] != '/') {\n            _gdo_call_dlclose"),
 ('p-leak-list', 'C09', P, "    free(plug->list);\n    free(plug);\n}", "    if (plug->num > 1) free(plug->list);\n    free(plug);\n}"),
 ('p-oomleak', 'C09', P, "            gdo_release_plugins(plug);\n            return NULL;", "            free(plug->list);\n            free(plug);\n            return NULL;"),
 ('p-malloc', 'C09', P, "(gdo_handle_t *)calloc(num, sizeof(gdo_handle_t))", "(gdo_handle_t *)malloc(num * sizeof(gdo_handle_t))"),
 ('p-handle0', 'C09', P, "_gdo_call_dlsym(plug->list[i].handle, \"%%symbol%%\");", "_gdo_call_dlsym(plug->list[i ? i - 1 : 0].handle, \"%%symbol%%\");"),
 ('m-noreset', 'C11', N, "    gdo_hndl.GDO_PTR_%%symbol%% = NULL;\n}", "    gdo_hndl.GDO_PTR_%%func_symbol%% = NULL;\n}"),
 ('m-nofree', 'C11', N, "        gdo_free_library();@\n        return \"failed", "        return \"failed"),
 ('m-noearlier', 'C11', N, "    /* free a previously loaded library */\n    gdo_free_library();\n", ""),
 ('m-empty', 'C11', N, "} else if (!*filename) {", "} else if (!filename) {"),
 ('mx-nofree', 'C11', NX, "            free_library();@\n            throw Symbol", "            throw Symbol"),
 ('mx-exc', 'C11', NX, "throw SymbolError(\"%%symbol%%\");@", "throw LibraryError(\"%%symbol%%\");@"),
 ('mx-null', 'C11', NX, "        if (handle) {\n#ifdef GDO_WINAPI\n            ::Free", "        if (true) {\n#ifdef GDO_WINAPI\n            ::Free"),
 ('mx-noearlier', 'C11', NX, "        /* free a previously loaded library */\n        free_library();\n", "        /* a previously loaded library */\n        if (handle) return;\n"),
 ('same-m', 'C11', N, "    if (!filename) {\n        return \"filename is <NULL>\";\n    } else if (!*filename) {\n        return \"filename is empty\";\n    }\n", "    if (!filename || filename[0] == '\\0') {\n        return filename ? \"filename is empty\" : \"filename is <NULL>\";\n    }\n"),
 ('same-p', 'C09', P, "    for (size_t i = 0; i < plug->num; i++) {\n        free(plug->list[i].filename);\n\n        if (plug->list[i].handle) {\n            _gdo_call_dlclose(plug->list[i].handle);\n        }\n    }\n", "    gdo_handle_t *it = plug->list, *end = plug->list + plug->num;\n    while (it != end) {\n        if (it->handle) _gdo_call_dlclose(it->handle);\n        free(it->filename);\n        it++;\n    }\n"),
 ('w-argnames', 'C10', 'src/parameter_names.cpp', '            proto.args += "..., ";\n            continue;', '            proto.args += "..., ";\n            proto.param_names += "..., ";\n            continue;'),
 ('w-constobj', 'C10', X, '(const void *)GDO_RAWPTR_%%symbol%%', 'reinterpret_cast<void *>(GDO_RAWPTR_%%symbol%%)'),
 ('w-pfx-first', 'C10', 'src/gendlopen.cpp', 'buf = std::regex_replace(input, reg_pfxupper, m_fmt_upper);', 'buf = std::regex_replace(input, reg_pfxupper, m_fmt_upper, std::regex_constants::format_first_only);'),
 ('w-guard', 'C10', 'src/generate.cpp', "std::string guard = '_' + pfx_upper + '_' + utils::to_upper(header_name) + '_';", "std::string guard = '_' + utils::to_upper(header_name) + '_';"),
 ('w-voidret', 'C10', 'src/substitute.cpp', 'if (utils::strcasecmp(e.type.c_str(), "void") == 0) {', 'if (e.type == "int") {'),
 ('w-deflib', 'C10', C, '#ifdef GDO_DEFAULT_LIB\n', '#ifdef GDO_DEFAULT_LIBA\n'),
 ('w-libw', 'C10', 'src/generate.cpp', 'lib_w = quote_lib(str, true);', 'lib_w = quote_lib(str, false);'),
 ('w-noop', 'C10', 'src/templates/c.h', 'inline __attribute__ ((always_inline)) void _gdo_noop(void) {}', 'void _gdo_noop(void) {}'),
 ('w-compat', 'C10', 'src/templates/common.h', '#ifndef RTLD_WORLD\n#define RTLD_WORLD 0\n#endif', '#undef RTLD_NODELETE\n#define RTLD_NODELETE 0x1001'),
 ('w-static', 'C10', 'src/templates/minimal.h', '# define GDO_LINKAGE  static inline', '# define GDO_LINKAGE  extern inline'),
 ('w-convert', 'C10', C, 'wchar_t *wcs = _gdo_mbstowcs(filename);', 'wchar_t *wcs = _gdo_mbstowcs(filename, flags);'),
 ('same-w', 'C10', 'src/gendlopen.cpp', '    buf = std::regex_replace(input, reg_pfxupper, m_fmt_upper);\n    buf = std::regex_replace(buf, reg_pfxlower, m_fmt_lower);', '    buf = std::regex_replace(input, reg_pfxlower, m_fmt_lower);\n    buf = std::regex_replace(buf, reg_pfxupper, m_fmt_upper);'),
]
