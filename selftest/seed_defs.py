"""Definitions of the planted bugs: edits, demonstration, what they need."""
C = 'src/templates/c.c'; X = 'src/templates/cxx.cpp'; K = 'src/templates/common.c'; P = 'src/templates/plugin.c'; N = 'src/templates/minimal.h'; NX = 'src/templates/minimal_cxxeh.hpp'
# fake system loader: a program defining these functions interposes the real ones
FAKE = r'''#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include <link.h>
#ifdef __cplusplus
extern "C" {
#endif
int opened, closed, fail_close, lookups; const char *missing = ""; char lname[20000] = "/x/lib";
static char h[64];
static struct link_map lm;
void *dlopen(const char *f, int fl) { (void)fl; if (strstr(f, "nofile")) return NULL; return &h[opened++]; }
int dlclose(void *p) { (void)p; if (fail_close) return -1; closed++; return 0; }
void *dlsym(void *p, const char *s) { (void)p; lookups++; if (!strcmp(s, missing)) return NULL; return (void *)s; }
char *dlerror(void) { return (char *)"fake error"; }
int dlinfo(void *p, int r, void *a) { (void)p; (void)r; lm.l_name = lname; *(struct link_map **)a = &lm; return 0; }
#ifdef __cplusplus
}
#endif
#define CHECK(x) do { if (!(x)) { printf("broken: %s\n", #x); return 1; } } while (0)
'''
PROTO = 'int foo_one(int a, char *b);\nvoid foo_two(void);\nlong foo_three(long n);\nextern int foo_obj;\n'
def loader_demo(fmt, ext, cc): return '''$gen -out=$t/gen.%s -format=%s -no-date "$here/protos.txt"
%s -w -I$t -I$here "$here/demo.%s" -o $t/demo -ldl
$t/demo
''' % (ext, fmt, cc, 'cpp' if 'pp' in ext else 'c')
def L(id, prop, edits, main, needs, breaks, fmt='c', ext='h', cc='gcc', defs=''):
    return {'id': id, 'prop': prop, 'edits': edits, 'needs': needs, 'breaks': breaks, 'demo': loader_demo(fmt, ext, cc),
            'files': {'protos.txt': PROTO, 'demo.' + ('cpp' if 'pp' in ext else 'c'): FAKE + defs + '#include "gen.%s"\n' % ext + 'int main(void) {\n' + main + '\n    return 0;\n}\n'}}
D = '#define GDO_DEFAULT_LIB "libx.so"\n#define GDO_DISABLE_ALIASING\n'
S = [
 L('c01-cxx-partial', 'C01', [(X, "    if (all_symbols_loaded()) {\n        return true;\n    } else if (!lib_loaded()) {", "    if (any_symbol_loaded() && m_errmsg.empty()) {\n        return true;\n    } else if (!lib_loaded()) {")],
   '''    gdo::dl d("libx.so"); missing = "foo_three";
    CHECK(d.load()); CHECK(d.load_symbol("foo_one"));
    CHECK(!d.load_all_symbols() || d.all_symbols_loaded());''',
   'load one symbol individually first, then load all symbols from a library that lacks another one', 'load_all_symbols() reports success although a pointer is null', 'c++', 'hpp', 'g++', D),
 L('c02-free-refused-path', 'C02', [(C, "    _gdo_clear_error();\n\n    if (gdo_lib_is_loaded()) {\n        if (!_gdo_call_dlclose(gdo_hndl.handle))", "    _gdo_clear_error();\n    GDO_RAWPTR_%%symbol%% = NULL;\n\n    if (gdo_lib_is_loaded()) {\n        if (!_gdo_call_dlclose(gdo_hndl.handle))")],
   '''    CHECK(gdo_load_lib_and_symbols()); fail_close = 1;
    CHECK(!gdo_free_lib()); CHECK(gdo_lib_is_loaded()); CHECK(gdo_all_symbols_loaded());''',
   'the system refuses to unload the library', 'a refused free has already reset the symbol pointers', defs=D),
 L('c03-load-again', 'C03', [(C, "    if (gdo_lib_is_loaded()) {\n        _gdo_save_to_errbuf(_T(\"library already loaded\"));\n        return false;\n    }", "    if (!gdo_no_symbols_loaded()) {\n        _gdo_save_to_errbuf(_T(\"library already loaded\"));\n        return false;\n    }")],
   '''    CHECK(gdo_load_lib_name("liba.so")); CHECK(!gdo_load_lib_name("libb.so")); CHECK(opened == 1);''',
   'load a second library before any symbol was loaded', 'the handle of the first library is lost', defs=D),
 L('c04-cxx-name-prefix', 'C04', [(X, "        if (len == curr_len && ::strcmp(symbol + pfxlen, curr + pfxlen) == 0) {@", "        if (len <= curr_len && ::strncmp(symbol + pfxlen, curr + pfxlen, len - pfxlen) == 0) {@")],
   '''    gdo::dl d("libx.so"); CHECK(d.load());
    CHECK(!d.load_symbol("foo_t")); CHECK(d.no_symbols_loaded());
    CHECK(d.load_symbol("foo_three"));''',
   'load by a name that is a proper prefix of a declared symbol', 'an unknown name loads another symbol', 'c++', 'hpp', 'g++', D),
 L('c07-path-terminator', 'C07', [(C, "    size_t len = strlen(lm->l_name) + 1;\n\n    if (len > GDO_BUFLEN) {", "    size_t len = strlen(lm->l_name);\n\n    if (len > GDO_BUFLEN) {"), (C, "    memcpy(gdo_hndl.libpath, lm->l_name, len);", "    memcpy(gdo_hndl.libpath, lm->l_name, len); /* buffer is zeroed */")],
   '''    memset(lname, 'a', sizeof(lname)); lname[0] = '/'; lname[GDO_BUFLEN] = 0;
    CHECK(gdo_load_lib()); const char *p = gdo_library_path();
    CHECK(!p || strlen(p) < GDO_BUFLEN);''',
   'a library path whose length is exactly the buffer size', 'the library path is not NUL-terminated', defs=D),
 L('c09-strdup-fails', 'C09', [(P, "            gdo_release_plugins(plug);\n            return NULL;", "            plug->num = i;\n            gdo_release_plugins(plug);\n            return NULL;"), (P, "    for (size_t i = 0; i < plug->num; i++) {\n        free(plug->list[i].filename);\n", "    for (size_t i = 0; i + 1 < plug->num + (plug->num == 1); i++) {\n        free(plug->list[i].filename);\n")],
   '''    const char *f[3] = {"a", "b", "c"};
    gdo_plugin_t *p = gdo_load_plugins(f, 3); CHECK(p && opened == 3);
    gdo_release_plugins(p); CHECK(closed == 3);''',
   'a list of at least two plugins is released', 'the last library of the list is never closed', 'plugin', 'h', 'gcc', ''),
 L('c11-cxx-stale', 'C11', [(NX, "        if (!GDO_PTR_%%symbol%%) {@\n            free_library();@\n", "        if (!GDO_PTR_%%symbol%%) {@\n            ::dlclose(handle);@\n            handle = nullptr;@\n")],
   '''    missing = "foo_three"; bool t = false;
    try { gdo::load_library_and_symbols("libx.so"); } catch (const gdo::SymbolError &) { t = true; }
    CHECK(t); CHECK(closed == 1); CHECK(!gdo::GDO_PTR_foo_one);''',
   'a later symbol of the library does not resolve', 'pointers into the closed library stay set after a failed load', 'minimal-c++', 'hpp', 'g++', '#define GDO_DISABLE_ALIASING\n'),
 L('c05-partial-autoload', 'C05', [(C, "    /* load all symbols */\n    if (gdo_load_all_symbols()) {", "    /* load all symbols */\n    if (gdo_load_all_symbols() || gdo_any_symbol_loaded()) {")],
   """    int st = 0; missing = "foo_three"; fflush(stdout);
    pid_t c = fork();
    if (c == 0) { fclose(stderr); foo_three(1); _exit(0); }
    waitpid(c, &st, 0);
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 1);""",
   'auto-loading from a library that lacks the called symbol but has others', 'the wrapper calls a null pointer', defs='#include <unistd.h>\n#include <sys/wait.h>\n#define GDO_DEFAULT_LIB "libx.so"\n#define GDO_ENABLE_AUTOLOAD\n'),
 L('c06-cxx-free-stale', 'C06', [(X, "    bool rv = true;\n\n    clear_error();\n\n    if (lib_loaded()) {\n        rv =", "    bool rv = true;\n\n    if (lib_loaded()) {\n        clear_error();\n        rv =")],
   """    gdo::dl d("nofile.so"); CHECK(!d.load()); CHECK(d.error() != "no error");
    CHECK(d.free()); CHECK(d.error() == "no error");""",
   'a failed load followed by a free that has nothing to do', 'the message of an earlier failure survives a successful call', 'c++', 'hpp', 'g++', D),
 L('c06-null-name', 'C06', [(C, "        GDO_SET_LAST_ERRNO(ERROR_INVALID_NAME);\n        _gdo_save_to_errbuf(_T(\"empty filename\"));", "        GDO_SET_LAST_ERRNO(ERROR_INVALID_NAME);\n        _gdo_save_to_errbuf(filename ? _T(\"empty filename\") : filename);")],
   """    CHECK(!gdo_load_lib_name(NULL)); CHECK(strcmp(gdo_last_error(), "no error"));""",
   'a null pointer as the library name', 'a failing call leaves the no-error text', defs=D),
 L('c08-stream-leak', 'C08', [(K, "    free(line);\n    fclose(fp);\n\n    if (path && (n = strlen(path)) < bufsize) {\n        memcpy(buf, path, n + 1);\n        free(path);\n        return true;\n    }\n\n    free(path);\n    return false;",
   "    free(line);\n\n    if (path && (n = strlen(path)) < bufsize) {\n        memcpy(buf, path, n + 1);\n        fclose(fp);\n        free(path);\n        return true;\n    }\n\n    free(path);\n    return false;")],
   """    strcpy(lname, "relative"); CHECK(gdo_load_lib());
    for (int i = 0; i < 3; i++) gdo_library_path(), gdo_hndl.libpath[0] = 0;
    int a = dup(0); for (int i = 0; i < 50; i++) gdo_library_path(), gdo_hndl.libpath[0] = 0;
    int b = dup(0); CHECK(b < a + 40);""",
   'a relative library path for which the memory map has no entry', 'a stream stays open at each path query', defs='#include <unistd.h>\n' + D),
 L('c08-stale-path', 'C08', [(C, "    if (gdo_lib_is_loaded()) {\n        _gdo_call_dlclose(gdo_hndl.handle);\n    }\n\n    gdo_hndl.libpath[0] = 0;\n", "    if (gdo_lib_is_loaded()) {\n        _gdo_call_dlclose(gdo_hndl.handle);\n    }\n")],
   """    CHECK(gdo_load_lib_name("liba.so")); strcpy(lname, "/x/liba.so"); CHECK(!strcmp(gdo_library_path(), "/x/liba.so"));
    gdo_force_free_lib(); strcpy(lname, "/x/libb.so"); CHECK(gdo_load_lib_name("libb.so")); CHECK(!strcmp(gdo_library_path(), "/x/libb.so"));""",
   'query the path, force-free, load another library, query again', 'the path of the previous library is reported', defs=D),
 {'id': 'c10-guard-name', 'prop': 'C10', 'edits': [('src/utils.cpp', "            if (::isalnum(c)) {\n                out += static_cast<char>(::toupper(c));", "            if (::isgraph(c) && c != '.' && c != '-') {\n                out += static_cast<char>(::toupper(c));")],
  'needs': 'an include guard (-no-pragma-once) and an output name with an unusual character', 'breaks': 'the header does not compile', 'files': {'a.txt': 'int foo_one(int a);\nint foo_two(int a);\n'},
  'demo': 'cd $t\n$gen -no-pragma-once -format=c -out=lib+x.h "$here/a.txt"\nprintf "#include \\"lib+x.h\\"\\nint main() { return 0; }\\n" >m.c\ngcc -Werror -I. -c m.c -o m.o\n'},
]
import seed_defs_gen
S += seed_defs_gen.S
