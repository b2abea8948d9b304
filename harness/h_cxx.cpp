/* Entry points the analysis starts from; only uses the public API of a generated C++ loader. */
#ifndef HDR
#define HDR "gen.hpp"
#endif
#include HDR
#include <new>

typedef gdo::dl D;

extern "C" {
bool h_loaded(D *) { return gdo::dl::lib_loaded(); }
bool h_load_args(D *d, const std::string *f, int flags, bool ns) { return d->load(*f, flags, ns); }
bool h_load_name(D *d, const std::string *f) { return d->load(*f); }
bool h_load_def(D *d) { return d->load(); }
bool h_load_def_syms(D *d) { return d->load_lib_and_symbols(); }
bool h_free(D *d) { return d->free(); }
void h_force_free(D *d) { d->free(true); }
bool h_load_all(D *d) { return d->load_all_symbols(); }
bool h_load_num(D *d, int n) { return d->load_symbol(n); }
bool h_load_sym(D *d, const char *s) { return d->load_symbol(s); }
bool h_q_all(D *d) { return d->all_symbols_loaded(); }
bool h_q_no(D *d) { return d->no_symbols_loaded(); }
bool h_q_any(D *d) { return d->any_symbol_loaded(); }
void h_err(std::string *r, D *d) { ::new (r) std::string(d->error()); }
void h_path(std::string *r, D *d) { ::new (r) std::string(d->library_path()); }
void h_filename(std::string *r, D *d) { ::new (r) std::string(d->filename()); }
int h_flags(D *d) { return d->flags(); }
void h_ctor0(D *d) { ::new (d) D(); }
void h_ctor1(D *d, const std::string *f) { ::new (d) D(*f); }
void h_ctor3(D *d, const std::string *f, int flags, bool ns) { ::new (d) D(*f, flags, ns); }
void h_dtor(D *d) { d->~D(); }
void h_set_dtor(D *d, bool b) { d->free_lib_in_dtor(b); }
/* a second object: the handle and the symbol pointers are shared by all objects */
void h_other_free(D *) { D d; d.free(true); }
bool h_other_load(D *, const std::string *f) { D d; d.free_lib_in_dtor(false); return d.load(*f); }
bool h_other_all(D *) { D d; d.free_lib_in_dtor(false); return d.load_all_symbols(); }
int h_sizeof() { return sizeof(D); }
int h_default_flags() { return gdo::default_flags; }

#define SYM(x) \
    void *h_ptr_##x(D *) { return (void *)GDO_RAWPTR_##x; } \
    int h_num_##x(D *) { return GDO_LOAD_##x; }
SYM(foo_one) SYM(foo_two) SYM(foo_three) SYM(foo_obj)

#if defined(GDO_WRAP_FUNCTIONS) || defined(GDO_ENABLE_AUTOLOAD)
void h_set_cb(D *, void (*cb)(const char *)) { gdo::dl::message_callback(cb); }
# if defined(GDO_WRAP_VISIBILITY)
#  define W(x) x
# else
#  define W(x) GDO_WRAP_##x
# endif
int h_wrap_foo_one(D *, int a, char *b) { return W(foo_one)(a, b); }
void h_wrap_foo_two(D *) { W(foo_two)(); }
const char *h_wrap_foo_three(D *, int (*cb)(int), long n) { return W(foo_three)(cb, n); }
#endif
}
