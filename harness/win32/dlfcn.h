/* stand-in for the dlfcn-win32 header */
#ifndef STUB_DLFCN_H
#define STUB_DLFCN_H
#ifdef __cplusplus
extern "C" {
#endif
#define RTLD_NOW 0
#define RTLD_LAZY RTLD_NOW
#define RTLD_GLOBAL (1 << 1)
#define RTLD_LOCAL (1 << 2)
#define RTLD_DEFAULT ((void *)0)
#define RTLD_NEXT ((void *)-1)
typedef struct dl_info { const char *dli_fname; void *dli_fbase; const char *dli_sname; void *dli_saddr; } Dl_info;
void *dlopen(const char *file, int mode); int dlclose(void *handle); void *dlsym(void *handle, const char *name); char *dlerror(void); int dladdr(const void *addr, Dl_info *info);
#ifdef __cplusplus
}
#endif
#endif
