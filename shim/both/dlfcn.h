// Shared libraries are stand-ins (both builds): the harness says what can be loaded and what symbols it has.
#ifndef PSE_DLFCN
#define PSE_DLFCN 1
#include_next <dlfcn.h>
#ifndef PSE_REAL_DL
extern "C" { void *pse_dlopen(const char *, int); int pse_dlclose(void *); void *pse_dlsym(void *, const char *); char *pse_dlerror(void); }
#define dlopen pse_dlopen
#define dlclose pse_dlclose
#define dlsym pse_dlsym
#define dlerror pse_dlerror
#endif
#endif
