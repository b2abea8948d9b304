/* Entry points the analysis starts from; only calls the public API of a generated C loader. */
#ifndef HDR
#define HDR "gen.h"
#endif
#include HDR
#include <stddef.h>

bool h_loaded(void) { return gdo_lib_is_loaded(); }
bool h_load_args(const char *f, int flags, bool ns) { return gdo_load_lib_args(f, flags, ns); }
bool h_load_name(const char *f) { return gdo_load_lib_name(f); }
bool h_load_name_syms(const char *f) { return gdo_load_lib_name_and_symbols(f); }
#ifdef GDO_DEFAULT_LIB
bool h_load_def(void) { return gdo_load_lib(); }
bool h_load_def_syms(void) { return gdo_load_lib_and_symbols(); }
#endif
bool h_free(void) { return gdo_free_lib(); }
void h_force_free(void) { gdo_force_free_lib(); }
bool h_autorel(void) { return gdo_enable_autorelease(); }
bool h_load_all(void) { return gdo_load_all_symbols(); }
bool h_load_num(int n) { return gdo_load_symbol(n); }
bool h_load_sym(const char *s) { return gdo_load_symbol_name(s); }
bool h_q_all(void) { return gdo_all_symbols_loaded(); }
bool h_q_no(void) { return gdo_no_symbols_loaded(); }
bool h_q_any(void) { return gdo_any_symbol_loaded(); }
const char *h_err(void) { return gdo_last_error(); }
const char *h_path(void) { return gdo_library_path(); }
int h_flags(void) { return GDO_DEFAULT_FLAGS; }

#define SYM(x) \
    void *h_ptr_##x(void) { return (void *)GDO_RAWPTR_##x; } \
    int h_num_##x(void) { return GDO_LOAD_##x; }
SYM(foo_one) SYM(foo_two) SYM(foo_three) SYM(foo_obj)

#if defined(GDO_WRAP_FUNCTIONS) || defined(GDO_ENABLE_AUTOLOAD)
#ifdef GDO_WRAP_VISIBILITY
# define W(x) x
#else
# define W(x) GDO_WRAP_##x
#endif
int h_wrap_foo_one(int a, char *b) { return W(foo_one)(a, b); }
void h_wrap_foo_two(void) { W(foo_two)(); }
const char *h_wrap_foo_three(int (*cb)(int), long n) { return W(foo_three)(cb, n); }
#endif
