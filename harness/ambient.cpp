// What a decoder might consult besides its inputs: environment, clocks, process identity, the C library's generators.
// While g_ambient is set on a thread, these calls answer something else than they did in the run compared with.
#include "hx.h"

#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

thread_local unsigned g_ambient = 0;
thread_local long g_opened = 0; // files, mappings, threads and keys this thread asked for

#if defined(__has_feature)
#define HX_SAN (__has_feature(address_sanitizer) || __has_feature(memory_sanitizer) || __has_feature(thread_sanitizer))
#else
#define HX_SAN 0
#endif
#if !HX_SAN
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(name) static auto f = real<decltype(&name)>(#name)
static char* answer() {
    static char one[] = "1", zero[] = "0", empty[] = "", text[] = "on";
    char* v[] = {one, zero, empty, text};
    return v[g_ambient % 4];
}
extern "C" {
__attribute__((visibility("default"))) char* getenv(const char* n) {
    REAL(getenv);
    return g_ambient ? answer() : f(n);
}
__attribute__((visibility("default"))) char* secure_getenv(const char* n) {
    REAL(secure_getenv);
    return g_ambient ? answer() : f(n);
}
__attribute__((visibility("default"))) time_t time(time_t* t) {
    REAL(time);
    time_t v = f(nullptr) + (time_t)g_ambient * 40009;
    if (t) {
        *t = v;
    }
    return v;
}
__attribute__((visibility("default"))) int clock_gettime(clockid_t c, struct timespec* t) {
    REAL(clock_gettime);
    int r = f(c, t);
    if (g_ambient && !r) {
        t->tv_sec += (time_t)g_ambient * 40009;
        t->tv_nsec = (t->tv_nsec + 7919L * g_ambient) % 1000000000L;
    }
    return r;
}
__attribute__((visibility("default"))) int gettimeofday(struct timeval* t, void* z) {
    REAL(gettimeofday);
    int r = f(t, z);
    if (g_ambient && !r) {
        t->tv_sec += (time_t)g_ambient * 40009;
        t->tv_usec = (t->tv_usec + 7919L * g_ambient) % 1000000L;
    }
    return r;
}
__attribute__((visibility("default"))) clock_t clock(void) {
    REAL(clock);
    return f() + (clock_t)g_ambient * 40009;
}
__attribute__((visibility("default"))) pid_t getpid(void) {
    REAL(getpid);
    return f() + (pid_t)(g_ambient % 1000);
}
__attribute__((visibility("default"))) int sched_getcpu(void) {
    static auto f = real<int (*)(void)>("sched_getcpu");
    return g_ambient ? (int)(g_ambient % 8) : f();
}
__attribute__((visibility("default"))) int get_nprocs(void) {
    static auto f = real<int (*)(void)>("get_nprocs");
    return g_ambient ? (int)(g_ambient % 8 + 1) : f();
}
__attribute__((visibility("default"))) int rand(void) {
    REAL(rand);
    return (int)(((unsigned)f() + g_ambient * 2654435761u) & 0x7fffffffu);
}
__attribute__((visibility("default"))) long random(void) {
    REAL(random);
    return (long)(((unsigned long)f() + g_ambient * 2654435761u) & 0x7fffffffu);
}
__attribute__((visibility("default"))) double drand48(void) {
    REAL(drand48);
    double v = f() + (g_ambient % 97) / 97.0;
    return v >= 1 ? v - 1 : v;
}
// what P32 counts: everything that opens, maps or starts something
#define OPENER(name)                                                                                                   \
    __attribute__((visibility("default"))) int name(const char* p, int fl, ...) {                                       \
        static auto f = real<int (*)(const char*, int, ...)>(#name);                                                    \
        va_list ap;                                                                                                     \
        va_start(ap, fl);                                                                                               \
        mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? (mode_t)va_arg(ap, int) : 0;                                           \
        va_end(ap);                                                                                                     \
        g_opened++;                                                                                                     \
        return f(p, fl, m);                                                                                             \
    }
#define OPENERAT(name)                                                                                                 \
    __attribute__((visibility("default"))) int name(int d, const char* p, int fl, ...) {                                \
        static auto f = real<int (*)(int, const char*, int, ...)>(#name);                                               \
        va_list ap;                                                                                                     \
        va_start(ap, fl);                                                                                               \
        mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? (mode_t)va_arg(ap, int) : 0;                                           \
        va_end(ap);                                                                                                     \
        g_opened++;                                                                                                     \
        return f(d, p, fl, m);                                                                                          \
    }
#define COUNTED(ret, name, params, args)                                                                               \
    __attribute__((visibility("default"))) ret name params {                                                            \
        static auto f = real<ret(*) params>(#name);                                                                     \
        g_opened++;                                                                                                     \
        return f args;                                                                                                  \
    }
#undef open64
#undef openat64
#undef fopen64
#undef mmap64
OPENER(open)
OPENER(open64)
OPENERAT(openat)
OPENERAT(openat64)
COUNTED(FILE*, fopen, (const char* p, const char* m), (p, m))
COUNTED(FILE*, fopen64, (const char* p, const char* m), (p, m))
COUNTED(int, socket, (int a, int b, int c), (a, b, c))
COUNTED(int, pipe2, (int* a, int b), (a, b))
COUNTED(int, memfd_create, (const char* n, unsigned fl), (n, fl))
COUNTED(void*, mmap, (void* a, size_t n, int p, int fl, int d, off_t o), (a, n, p, fl, d, o))
COUNTED(void*, mmap64, (void* a, size_t n, int p, int fl, int d, off64_t o), (a, n, p, fl, d, o))
COUNTED(void*, sbrk, (intptr_t n), (n))
COUNTED(int, pthread_create, (pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* v), (t, a, fn, v))
COUNTED(int, pthread_key_create, (pthread_key_t* k, void (*d)(void*)), (k, d))
COUNTED(int, system, (const char* c), (c))
COUNTED(FILE*, popen, (const char* c, const char* m), (c, m))
}
#endif
