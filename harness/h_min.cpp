/* Entry points of the analysis of the minimal C++ loader. */
#include <cstddef>
#include "gen.hpp"
extern "C" {
void h_load(const char *f) { gdo::load_library_and_symbols(f); }
void h_free(void) { gdo::free_library(); }
void *h_handle(void) { return gdo::handle; }
#define SYM(x) void *h_ptr_##x(void) { return (void *)gdo::GDO_PTR_##x; }
SYM(foo_one) SYM(foo_two) SYM(foo_three) SYM(foo_obj)
}
