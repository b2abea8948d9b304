/* Entry points of the analysis of the minimal C loader. */
#include <stddef.h>
#include "gen.h"
const char *h_load(const char *f) { return gdo_load_library_and_symbols(f); }
void h_free(void) { gdo_free_library(); }
void *h_handle(void) { return gdo_hndl.handle; }
#define SYM(x) void *h_ptr_##x(void) { return (void *)gdo_hndl.GDO_PTR_##x; }
SYM(foo_one) SYM(foo_two) SYM(foo_three) SYM(foo_obj)
