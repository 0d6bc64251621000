// Harness core: library flavours, RNG, statistics, violation reporting, worker driver.
#pragma once
#include <dlfcn.h>
#include <initializer_list>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "mbelib-neo/mbelib.h"

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define HX_MSAN 1
#endif
#endif

#define HX_API(X)                                                                                              \
    X(checkGolayBlock) X(golay2312) X(hamming1511) X(7100x4400hamming1511)                                     \
    X(eccAmbe3600x2400C0) X(eccAmbe3600x2400Data) X(decodeAmbe2400Parms) X(demodulateAmbe3600x2400Data)         \
    X(processAmbe2400Dataf) X(processAmbe2400Data) X(processAmbe3600x2400Framef) X(processAmbe3600x2400Frame)   \
    X(eccAmbe3600x2450C0) X(eccAmbe3600x2450Data) X(decodeAmbe2450Parms) X(demodulateAmbe3600x2450Data)         \
    X(processAmbe2450Dataf) X(processAmbe2450Data) X(processAmbe3600x2450Framef) X(processAmbe3600x2450Frame)   \
    X(dumpImbe4400Data) X(dumpImbe7200x4400Data) X(dumpImbe7200x4400Frame) X(eccImbe7200x4400C0)                \
    X(eccImbe7200x4400Data) X(decodeImbe4400Parms) X(demodulateImbe7200x4400Data) X(processImbe4400Dataf)       \
    X(processImbe4400Data) X(processImbe7200x4400Framef) X(processImbe7200x4400Frame) X(dumpImbe7100x4400Data)  \
    X(dumpImbe7100x4400Frame) X(eccImbe7100x4400C0) X(eccImbe7100x4400Data) X(demodulateImbe7100x4400Data)      \
    X(convertImbe7100to7200) X(processImbe7100x4400Framef) X(processImbe7100x4400Frame) X(printVersion)         \
    X(versionString) X(setThreadRngSeed) X(moveMbeParms) X(useLastMbeParms) X(initMbeParms)                     \
    X(spectralAmpEnhance) X(synthesizeTonef) X(synthesizeTonefdstar) X(synthesizeSilencef) X(synthesizeSilence) \
    X(synthesizeSpeechf) X(synthesizeSpeech) X(floattoshort) X(requiresMuting) X(isMaxFrameRepeat)              \
    X(synthesizeComfortNoisef) X(synthesizeComfortNoise) X(applyAdaptiveSmoothing) X(requiresAdaptiveSmoothing)

struct Lib {
    const char* name;
    void* h;
#define X(n) decltype(&::mbe_##n) f_##n;
    HX_API(X)
#undef X
};

// ---------------------------------------------------------------- RNG
extern thread_local unsigned g_ambient; // see ambient.cpp
struct Rng {
    uint64_t s;
    Rng() : s(1) {}
    explicit Rng(uint64_t x) : s(x) {}
    uint64_t u64() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t u32() { return (uint32_t)(u64() >> 32); }
    int below(int n) { return (int)(((uint64_t)u32() * (uint64_t)n) >> 32); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(double p) { return uni() < p; }
    double uni() { return (double)(u64() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    double gauss() {
        double u = uni() + 1e-18, v = uni();
        return sqrt(-2 * log(u)) * cos(6.283185307179586 * v);
    }
    int bit() { return (int)(u64() >> 63); }
};
static inline uint64_t mix(uint64_t a, uint64_t b) {
    Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull));
    r.u64();
    return r.u64() ^ b;
}
static inline uint64_t hashb(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) {
        h = (h ^ c[i]) * 1099511628211ull;
    }
    return h;
}
static inline uint64_t hashs(const char* s) { return hashb(s, strlen(s)); }

// ---------------------------------------------------------------- shared memory with the parent
struct ViolRec {
    long caseno;
    char key[96];
    char msg[600];
};
struct Shared {
    volatile long next;
    volatile long done;
    volatile int nviol;
    volatile int stop;
    volatile long cur[64];
    volatile double start[64];
    ViolRec v[128];
};
extern Shared* g_sh;
extern long g_case;
extern bool g_verbose;
extern const char* g_tier;

static inline double nowsec() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}

__attribute__((format(printf, 2, 3))) void viol(const char* key, const char* fmt, ...);

// ---------------------------------------------------------------- statistics
void cnt_add(const char* name, long n);
#define CNT(name) cnt_add(name, 1)
#define CNTN(name, n) cnt_add(name, (long)(n))
void sig(uint64_t h);       // distinct non-trivial behaviour observed
void evals(long n);         // oracle evaluations performed
__attribute__((format(printf, 1, 2))) void sample(const char* fmt, ...);

// ---------------------------------------------------------------- context
struct Cx {
    Rng r;
    long caseno;
    long ncases;
    uint64_t seed;
    int nlib;
    Lib* libs;
    Lib& lib(int i = 0) { return libs[i % nlib]; }
    Lib* byname(const char* n) {
        for (int i = 0; i < nlib; i++) {
            if (!strcmp(libs[i].name, n)) {
                return &libs[i];
            }
        }
        return nullptr;
    }
};
typedef void (*ModeFn)(Cx&);
struct Mode {
    const char* name;
    ModeFn fn;
};
void reg_mode(const char* name, ModeFn fn);
#define MODE(nm)                                                                                               \
    static void mode_##nm(Cx& cx);                                                                             \
    static struct Reg_##nm {                                                                                   \
        Reg_##nm() { reg_mode(#nm, mode_##nm); }                                                               \
    } reg_##nm;                                                                                                \
    static void mode_##nm(Cx& cx)
