/* Entry points of the analysis of the plugin loader. */
#include <stddef.h>
#include "gen.h"
gdo_plugin_t *h_load(const gdo_char_t **files, size_t num) { return gdo_load_plugins(files, num); }
void h_release(gdo_plugin_t *p) { gdo_release_plugins(p); }
size_t h_num(gdo_plugin_t *p) { return p->num; }
const gdo_char_t *h_filename(gdo_plugin_t *p, size_t i) { return p->list[i].filename; }
void *h_handle(gdo_plugin_t *p, size_t i) { return p->list[i].handle; }
#define SYM(x) void *h_ptr_##x(gdo_plugin_t *p, size_t i) { return (void *)p->list[i].ptr.x; }
SYM(foo_one) SYM(foo_two) SYM(foo_three) SYM(foo_obj)
