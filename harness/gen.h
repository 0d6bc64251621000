// Workload generators and call wrappers.
#pragma once
#include "hx.h"
#include "model.h"
using namespace md;

#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer)
#define HX_EXACT 1
#endif
#endif

// Output buffer of exactly n usable bytes; guard bytes around it unless a sanitizer watches the heap block.
struct GBuf {
    unsigned char* raw;
    unsigned char* p;
    size_t n;
    enum { G = 64 };
    explicit GBuf(size_t n_) : n(n_) {
#ifdef HX_EXACT
        raw = p = (unsigned char*)malloc(n ? n : 1);
#else
        raw = (unsigned char*)malloc(n + 2 * G);
        p = raw + G;
        memset(raw, 0xA5, n + 2 * G);
#endif
    }
    ~GBuf() { free(raw); }
    GBuf(const GBuf&) = delete;
    bool ok() const {
#ifndef HX_EXACT
        for (int i = 0; i < G; i++) {
            if (raw[i] != 0xA5 || p[n + (size_t)i] != 0xA5) {
                return false;
            }
        }
#endif
        return true;
    }
    char* c() { return (char*)p; }
    float* f() { return (float*)p; }
    short* s() { return (short*)p; }
    int* i() { return (int*)p; }
    mbe_parms* m() { return (mbe_parms*)p; }
};

struct St {
    mbe_parms c, p, e;
};
static inline void st_init(Lib& L, St& s) { L.f_initMbeParms(&s.c, &s.p, &s.e); }

// ------------------------------------------------------------------ comparing states
static inline bool feq(double a, double b, double rt, double at) {
    if (a == b) {
        return true;
    }
    if (!(fabs(a) < 1e300) || !(fabs(b) < 1e300)) {
        return (a != a) && (b != b);
    }
    return fabs(a - b) <= rt * fmax(fabs(a), fabs(b)) + at;
}
// returns description of first difference or null; exact: bitwise
struct DiffBuf {
    char t[200];
};
static inline const char* diff_parms(const mbe_parms& a, const mbe_parms& b, bool exact, DiffBuf& o,
                                     double rt = 1e-5, double at = 1e-6, double pht = 1e-3, double uwt = 1e-3) {
#define FI(x)                                                                                                  \
    if (a.x != b.x) {                                                                                          \
        snprintf(o.t, sizeof o.t, #x " %d vs %d", a.x, b.x);                                                   \
        return o.t;                                                                                            \
    }
#define FF(x, R, A)                                                                                            \
    if (exact ? memcmp(&a.x, &b.x, 4) != 0 : !feq(a.x, b.x, R, A)) {                                           \
        snprintf(o.t, sizeof o.t, #x " %.9g vs %.9g", (double)a.x, (double)b.x);                               \
        return o.t;                                                                                            \
    }
#define FA(x, n, R, A)                                                                                         \
    for (int i_ = 0; i_ < n; i_++) {                                                                           \
        if (exact ? memcmp(&a.x[i_], &b.x[i_], 4) != 0 : !feq(a.x[i_], b.x[i_], R, A)) {                       \
            snprintf(o.t, sizeof o.t, #x "[%d] %.9g vs %.9g", i_, (double)a.x[i_], (double)b.x[i_]);           \
            return o.t;                                                                                        \
        }                                                                                                      \
    }
    FI(L) FI(K) FF(w0, rt, at) FI(repeat) FI(repeatCount) FI(un) FI(swn) FI(errorCountTotal) FI(errorCount4)
    FI(amplitudeThreshold)
    FF(gamma, rt, at) FF(localEnergy, rt, at) FF(errorRate, rt, at) FF(mutingThreshold, 0, 0)
    FF(noiseSeed, 0, 0) FA(Vl, 57, 0, 0) FA(Ml, 57, rt * 4, at) FA(log2Ml, 57, rt, at * 10) FA(PHIl, 57, 1e-6, pht)
    FA(PSIl, 57, 1e-6, pht) FA(noiseOverlap, 96, 0, 0) FA(previousUw, 256, rt * 10, uwt)
#undef FI
#undef FF
#undef FA
    return nullptr;
}
static inline uint64_t hash_st(const St& s) { return hashb(&s, sizeof s); }

// ------------------------------------------------------------------ parameter vectors
static inline void set_bits(uint8_t* d, std::initializer_list<int> ix, int v) {
    int n = (int)ix.size(), i = 0;
    for (int p : ix) {
        d[p] = (uint8_t)(v >> (n - 1 - i) & 1);
        i++;
    }
}
static inline void set_b0(int codec, uint8_t* d, int b0) {
    if (is_imbe(codec)) {
        set_bits(d, {0, 1, 2, 3, 4, 5, 85, 86}, b0);
    } else if (codec == A50) {
        set_bits(d, {0, 1, 2, 3, 37, 38, 39}, b0);
    } else {
        set_bits(d, {0, 1, 2, 3, 4, 5, 48}, b0);
    }
}
static inline int get_b0(int codec, const uint8_t* d) {
    if (is_imbe(codec)) {
        return imbe_b0(d);
    }
    return codec == A50 ? f(d, {0, 1, 2, 3, 37, 38, 39}) : b0_2400(d);
}
static inline int voice_b0s(int codec) { return is_imbe(codec) ? 208 : codec == A50 ? 120 : 126; }
static inline void set_imbe_field(uint8_t* d, int field, int bitval_all) { // all bits of b_field
    int b0 = imbe_b0(d);
    if (b0 > 207) {
        return;
    }
    int L9 = imbe_L(b0) - 9;
    for (int i = 0; i < 79; i++) {
        if (tab::imbe::bo[L9][i][0] == field) {
            d[6 + i] = (uint8_t)bitval_all;
        }
    }
}
static inline void set_gain(int codec, uint8_t* d, int v) { // v in 0..63 / 0..31
    if (is_imbe(codec)) {
        int b0 = imbe_b0(d);
        if (b0 > 207) {
            return;
        }
        int L9 = imbe_L(b0) - 9;
        for (int i = 0; i < 79; i++) {
            if (tab::imbe::bo[L9][i][0] == 2) {
                d[6 + i] = (uint8_t)(v >> tab::imbe::bo[L9][i][1] & 1);
            }
        }
    } else if (codec == A50) {
        set_bits(d, {8, 9, 10, 11, 36}, v & 31);
    } else {
        set_bits(d, {6, 7, 8, 9, 42, 43}, v & 63);
    }
}
static inline void set_voicing(int codec, uint8_t* d, Rng& r, int how) { // 0 all unvoiced, 1 all voiced, 2 random
    if (is_imbe(codec)) {
        int b0 = imbe_b0(d);
        if (b0 > 207) {
            return;
        }
        int L9 = imbe_L(b0) - 9;
        for (int i = 0; i < 79; i++) {
            if (tab::imbe::bo[L9][i][0] == 1) {
                d[6 + i] = (uint8_t)(how == 2 ? r.bit() : how);
            }
        }
    } else if (codec == A50) {
        set_bits(d, {4, 5, 6, 7, 35}, how == 2 ? r.below(32) : how ? 0 : 31);
    } else {
        set_bits(d, {38, 39, 40, 41}, how == 2 ? r.below(16) : how ? 15 : 0);
    }
}

enum Prof { UNIFORM, VOICE, STICKY, LOUD, QUIET, SPECIAL, NPROF };
struct DGen {
    int codec;
    uint8_t last[88];
    bool have = false;
    int sticky_b0 = -1;
    explicit DGen(int c) : codec(c) {}
    void uni(Rng& r, uint8_t* d) {
        for (int i = 0; i < nbits(codec); i++) {
            d[i] = (uint8_t)r.bit();
        }
    }
    // next parameter vector (IMBE: 7200 layout)
    void next(Rng& r, int prof, uint8_t* d) {
        int n = nbits(codec);
        memset(d, 0, 88);
        if (prof == STICKY && have) {
            memcpy(d, last, 88);
            int k = r.below(4);
            for (int i = 0; i < k; i++) {
                d[r.below(n)] ^= 1;
            }
            if (get_b0(codec, d) >= voice_b0s(codec) || r.chance(0.3)) {
                int b = get_b0(codec, last) + r.range(-3, 3);
                if (b >= 0 && b < voice_b0s(codec)) {
                    set_b0(codec, d, b);
                }
            }
        } else {
            uni(r, d);
            if (prof != UNIFORM && prof != SPECIAL) {
                set_b0(codec, d, r.below(voice_b0s(codec)));
                if (r.chance(0.4)) {
                    set_voicing(codec, d, r, r.below(2));
                }
            }
            if (prof == LOUD) {
                set_gain(codec, d, 63);
            }
            if (prof == QUIET) {
                set_gain(codec, d, 0);
            }
            if (prof == SPECIAL) {
                special(r, d);
            }
        }
        memcpy(last, d, 88);
        have = true;
    }
    void special(Rng& r, uint8_t* d) {
        if (is_imbe(codec)) {
            set_b0(codec, d, r.range(208, 255));
        } else if (codec == A50) {
            int k = r.below(4);
            if (k == 0) {
                set_b0(codec, d, r.range(120, 127));
            } else if (k == 1) {
                set_b0(codec, d, r.range(124, 125));
                d[4] = 0;
            } else { // tone pattern
                for (int i = 0; i < 6; i++) {
                    d[i] = 1;
                }
                int id = r.chance(0.7) ? (r.bit() ? r.range(5, 122) : r.range(128, 163)) : r.below(256);
                set_bits(d, {12, 13, 14, 15, 16, 17, 18, 19}, id);
                if (r.chance(0.7)) {
                    set_bits(d, {45, 46, 47, 48}, 0);
                } else if (r.chance(0.7)) {
                    set_bits(d, {20, 21, 22, 23}, f(d, {12, 13, 14, 15}));
                }
            }
        } else {
            for (int i = 0; i < 6; i++) {
                d[i] = 1;
            }
            if (r.chance(0.8)) { // choose the tone index
                int id = r.chance(0.7) ? r.range(5, 122) : r.below(256);
                static const uint8_t t7[8] = {1, 0, 0, 0, 0, 1, 1, 1}, t6[8] = {0, 0, 0, 1, 1, 1, 1, 0},
                                     t5[8] = {0, 0, 1, 0, 1, 1, 0, 1};
                for (int x = 0; x < 8; x++) {
                    if ((t7[x] << 7 | t6[x] << 6 | t5[x] << 5) == (id & 0xe0)) {
                        set_bits(d, {6, 7, 8}, x);
                    }
                }
                set_bits(d, {9, 42, 43, 10, 11}, id & 31);
            }
        }
    }
    int pick_prof(Rng& r) {
        static const int w[] = {UNIFORM, VOICE, VOICE, VOICE, STICKY, STICKY, STICKY, LOUD, QUIET, SPECIAL, SPECIAL};
        return w[r.below(11)];
    }
};

// ------------------------------------------------------------------ channel errors
// flips bits of a transmitted frame; level 0 none, 1 correctable light, 2 correctable heavy, 3 beyond, 4 garbage,
// 5 first-word emphasis (2..3 data-bit errors in word 0, others random correctable)
static inline void inject(int codec, uint8_t* fr, Rng& r, int level) {
    const Word* W;
    int n = words(codec, &W), C = frcols(codec);
    if (level == 0) {
        return;
    }
    if (level == 4) {
        for (int i = 0; i < frsz(codec); i++) {
            fr[i] = (uint8_t)r.bit();
        }
        return;
    }
    for (int i = 0; i < n; i++) {
        int len = W[i].hi - W[i].lo + 1;
        int cap = (W[i].kind == 1 || W[i].kind == 4) ? 3 : W[i].kind ? 1 : 0;
        int k = 0;
        if (level == 1) {
            k = r.chance(0.3) ? r.below(cap + 1) : 0;
        } else if (level == 2) {
            k = cap ? r.range(cap > 1 ? 1 : 0, cap) : 0;
        } else if (level == 3) {
            k = r.below(cap + 4);
        } else if (level == 5) {
            k = i == 0 ? r.range(2, 3) : (cap ? r.range(cap - 1, cap) : 0);
        }
        int db = (W[i].kind == 1) ? 12 : W[i].kind == 4 ? 7 : 11;
        for (int e = 0; e < k; e++) {
            int pos = (level == 5 || level == 2) && r.chance(0.85) ? W[i].hi - r.below(db < len ? db : len)
                                                                    : W[i].hi - r.below(len);
            fr[W[i].row * C + pos] ^= 1;
        }
    }
    if (!is_imbe(codec) && r.chance(0.15)) {
        fr[0] ^= 1;
    }
}
// transmitted frame for a 7200-layout (IMBE) or native parameter vector
static inline void make_frame(int codec, const uint8_t* d, uint8_t* fr, Rng& r, int level) {
    uint8_t t[88];
    if (codec == I71) {
        inv7100(d, t);
        encode(codec, t, fr);
    } else {
        encode(codec, d, fr);
    }
    inject(codec, fr, r, level);
}
// what the receiver must recover: d in processing layout
static inline void fec_expect(int codec, const uint8_t* fr, FecOut& o) {
    md::decode(codec, fr, o);
    if (codec == I71) {
        uint8_t t[88];
        conv7100(o.d, t);
        memcpy(o.d, t, 88);
    }
}

// ------------------------------------------------------------------ uniform call wrappers
static inline void proc_data(Lib& L, int codec, bool sh, void* a, const int* errs, const int* errs2, char* str,
                             const char* d, mbe_parms* c, mbe_parms* p, mbe_parms* e, int uv) {
    switch (codec) {
        case I72:
        case I71:
            sh ? L.f_processImbe4400Data((short*)a, errs, errs2, str, d, c, p, e, uv)
               : L.f_processImbe4400Dataf((float*)a, errs, errs2, str, d, c, p, e, uv);
            break;
        case A50:
            sh ? L.f_processAmbe2450Data((short*)a, errs, errs2, str, d, c, p, e, uv)
               : L.f_processAmbe2450Dataf((float*)a, errs, errs2, str, d, c, p, e, uv);
            break;
        default:
            sh ? L.f_processAmbe2400Data((short*)a, errs, errs2, str, d, c, p, e, uv)
               : L.f_processAmbe2400Dataf((float*)a, errs, errs2, str, d, c, p, e, uv);
    }
}
static inline void proc_frame(Lib& L, int codec, bool sh, void* a, int* errs, int* errs2, char* str, char* fr, char* d,
                              mbe_parms* c, mbe_parms* p, mbe_parms* e, int uv) {
    typedef char(*F23)[23];
    typedef char(*F24)[24];
    switch (codec) {
        case I72:
            sh ? L.f_processImbe7200x4400Frame((short*)a, errs, errs2, str, (F23)fr, d, c, p, e, uv)
               : L.f_processImbe7200x4400Framef((float*)a, errs, errs2, str, (F23)fr, d, c, p, e, uv);
            break;
        case I71:
            sh ? L.f_processImbe7100x4400Frame((short*)a, errs, errs2, str, (F24)fr, d, c, p, e, uv)
               : L.f_processImbe7100x4400Framef((float*)a, errs, errs2, str, (F24)fr, d, c, p, e, uv);
            break;
        case A50:
            sh ? L.f_processAmbe3600x2450Frame((short*)a, errs, errs2, str, (F24)fr, d, c, p, e, uv)
               : L.f_processAmbe3600x2450Framef((float*)a, errs, errs2, str, (F24)fr, d, c, p, e, uv);
            break;
        default:
            sh ? L.f_processAmbe3600x2400Frame((short*)a, errs, errs2, str, (F24)fr, d, c, p, e, uv)
               : L.f_processAmbe3600x2400Framef((float*)a, errs, errs2, str, (F24)fr, d, c, p, e, uv);
    }
}
static inline int ecc_c0(Lib& L, int codec, char* fr) {
    typedef char(*F23)[23];
    typedef char(*F24)[24];
    return codec == I72   ? L.f_eccImbe7200x4400C0((F23)fr)
           : codec == I71 ? L.f_eccImbe7100x4400C0((F24)fr)
           : codec == A50 ? L.f_eccAmbe3600x2450C0((F24)fr)
                          : L.f_eccAmbe3600x2400C0((F24)fr);
}
static inline void demod(Lib& L, int codec, char* fr) {
    typedef char(*F23)[23];
    typedef char(*F24)[24];
    codec == I72   ? L.f_demodulateImbe7200x4400Data((F23)fr)
    : codec == I71 ? L.f_demodulateImbe7100x4400Data((F24)fr)
    : codec == A50 ? L.f_demodulateAmbe3600x2450Data((F24)fr)
                   : L.f_demodulateAmbe3600x2400Data((F24)fr);
}
static inline int ecc_data(Lib& L, int codec, char* fr, char* d) {
    typedef char(*F23)[23];
    typedef char(*F24)[24];
    return codec == I72   ? L.f_eccImbe7200x4400Data((F23)fr, d)
           : codec == I71 ? L.f_eccImbe7100x4400Data((F24)fr, d)
           : codec == A50 ? L.f_eccAmbe3600x2450Data((F24)fr, d)
                          : L.f_eccAmbe3600x2400Data((F24)fr, d);
}
static inline int dec_parms(Lib& L, int codec, const char* d, mbe_parms* c, mbe_parms* p) {
    return is_imbe(codec)  ? L.f_decodeImbe4400Parms(d, c, p)
           : codec == A50 ? L.f_decodeAmbe2450Parms(d, c, p)
                          : L.f_decodeAmbe2400Parms(d, c, p);
}

// One decoding step fully described (so that it can be repeated on copies).
struct Step {
    int codec;
    bool frame;        // frame-level or parameter-level call
    uint8_t fr[8 * 24];
    uint8_t d[88];     // processing layout
    int errs, errs2, c4;
    int seed;          // RNG seed set before the call (per case constant stream)
    int uv;
};
static inline void step_gen(Rng& r, DGen& g, int codec, bool frame, int prof, int level, Step& s) {
    memset(&s, 0, sizeof s);
    s.codec = codec;
    s.frame = frame;
    s.uv = 3;
    uint8_t d[88];
    g.next(r, prof, d);
    if (frame) {
        make_frame(codec, d, s.fr, r, level);
        FecOut o;
        fec_expect(codec, s.fr, o);
        memcpy(s.d, o.d, 88);
        s.errs = o.errs;
        s.errs2 = o.errs2;
        s.c4 = o.c4;
    } else {
        memcpy(s.d, d, 88);
        static const int e2[] = {0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 9, 12};
        s.errs2 = level == 0 ? 0 : level == 1 ? r.below(4) : level == 4 ? r.range(5, 40) : e2[r.below(12)];
        s.errs = r.below(4);
        if (s.errs > s.errs2) {
            s.errs = s.errs2;
        }
        s.c4 = 0;
    }
}
struct CallRes {
    float a[160];
    short sh[160];
    int errs, errs2;
    char str[600];
    uint8_t d[88];
    uint8_t fr[8 * 24];
};
static inline void do_step(Lib& L, const Step& s, bool sh, St& st, CallRes& o) {
    memset(&o, 0, sizeof o);
    memcpy(o.fr, s.fr, sizeof o.fr);
    memcpy(o.d, s.d, sizeof o.d);
    o.errs = s.errs;
    o.errs2 = s.errs2;
    void* a = sh ? (void*)o.sh : (void*)o.a;
    if (s.frame) {
        proc_frame(L, s.codec, sh, a, &o.errs, &o.errs2, o.str, (char*)o.fr, (char*)o.d, &st.c, &st.p, &st.e, s.uv);
    } else {
        proc_data(L, s.codec, sh, a, &o.errs, &o.errs2, o.str, (const char*)o.d, &st.c, &st.p, &st.e, s.uv);
    }
}

// A plan of history segments: produces steps with changing profiles/levels.
struct Hist {
    int codec;
    DGen g;
    int prof, level, left;
    double pframe;
    explicit Hist(int c, double pf = 0.5) : codec(c), g(c), prof(VOICE), level(0), left(0), pframe(pf) {}
    void next(Rng& r, Step& s) {
        if (left-- <= 0) {
            left = r.range(1, 9);
            prof = g.pick_prof(r);
            static const int lv[] = {0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 5};
            level = lv[r.below(11)];
        }
        int pr = r.chance(0.15) ? g.pick_prof(r) : prof;
        step_gen(r, g, codec, r.chance(pframe), pr, level, s);
    }
};

// ------------------------------------------------------------------ state machine, composed from public stage calls
struct SmOut {
    St s;
    float a[160];
    char str[5100];
    bool amb;   // decision too close to a float threshold
    int kind;   // 0 speech 1 muted speech 2 comfort+reset 3 erasure 4 tone 5 replay
    bool repeat;
};
static inline void sm_reset_ambe(Lib& L, St& s, const mbe_parms& fresh) {
    (void)L;
    s.c = s.p = s.e = fresh;
}
// model of a freshly initialised half-rate state
static inline void fresh_ambe(mbe_parms& m) {
    memset(&m, 0, sizeof m);
    m.w0 = (float)((PI / 32.0) * (2.0 * PI));
    m.L = 15;
    for (int l = 0; l <= 56; l++) {
        m.Ml[l] = 1.0f;
    }
    m.localEnergy = 75000.0f;
    m.amplitudeThreshold = 20480;
    m.mutingThreshold = 0.096f;
    m.noiseSeed = -1.0f;
}
static inline void fresh_imbe(mbe_parms& m) {
    memset(&m, 0, sizeof m);
    m.w0 = (float)((4.0 * PI) / (134.0 + 39.5));
    m.L = imbe_L(134);
    m.K = 12;
    for (int l = 0; l <= 56; l++) {
        m.Ml[l] = 1.0f;
    }
    m.localEnergy = 75000.0f;
    m.amplitudeThreshold = 20480;
    m.mutingThreshold = 0.0875f;
    m.noiseSeed = -1.0f;
}
static inline void sm_text(SmOut& o, int n, const char* marks) {
    int k = 0;
    for (int i = 0; i < n && k < 5090; i++) {
        o.str[k++] = '=';
    }
    strcpy(o.str + k, marks);
}
static inline bool near_(double a, double b, double t) { return fabs(a - b) < t; }
// does every reasonable evaluation of .95*p + .000365*n give exactly t?
static inline bool rate_exact(float p, int n, float t) {
    volatile float a = 0.95f * p, b = 0.000365f * (float)n;
    volatile float x = a + b;
    return x == t && fmaf(0.95f, p, b) == t && fmaf(0.000365f, (float)n, a) == t
           && (float)(0.95 * (double)p + 0.000365 * n) == t && (float)((double)0.95f * (double)p + (double)0.000365f * n) == t;
}
static inline bool find_rate(int n, float t, float& out) {
    float p = (float)(((double)t - 0.000365 * n) / 0.95);
    if (!(p > 0)) {
        return false;
    }
    for (int k = 0; k < 24; k++) {
        p = nextafterf(p, 0);
    }
    for (int k = 0; k < 48; k++, p = nextafterf(p, 1e9f)) {
        if (rate_exact(p, n, t)) {
            out = p;
            return true;
        }
    }
    return false;
}

static inline void sm_step(Lib& L, const Step& in, const St& pre, SmOut& o) {
    memset(&o, 0, sizeof o);
    o.s = pre;
    mbe_parms &c = o.s.c, &p = o.s.p, &e = o.s.e;
    char marks[8] = "";
    if (is_imbe(in.codec)) {
        c.mutingThreshold = 0.0875f;
        c.errorCountTotal = in.errs2;
        c.errorRate = (float)(0.95 * (double)p.errorRate + 0.000365 * in.errs2);
        c.errorCount4 = in.frame ? in.c4 : 0;
        int bad = L.f_decodeImbe4400Parms((const char*)in.d, &c, &p);
        double thr = 10.0 + 40.0 * c.errorRate;
        bool rep;
        if (imbe_b0(in.d) > 207) {
            rep = true;
        } else if (in.frame) {
            rep = in.errs >= 2 && in.errs2 >= thr;
            bool sharp = rate_exact(p.errorRate, in.errs2, 0.125f); // threshold exactly 15
            if (in.errs >= 2 && near_(in.errs2, thr, 1e-4) && !sharp) {
                o.amb = true;
            }
        } else {
            rep = in.errs2 > 5;
        }
        (void)bad;
        if (rep) {
            strcat(marks, "R");
            if (p.repeatCount > 3) {
                c.swn = c.un = 0;
                c.w0 = (float)(4 * PI / 173.5);
                c.L = imbe_L(134);
                c.K = 12;
                c.gamma = 0;
                for (int l = 0; l <= 56; l++) {
                    c.Vl[l] = 0;
                    c.Ml[l] = 1;
                    c.log2Ml[l] = 0;
                }
                c.repeat = c.repeatCount = 0;
                c.localEnergy = 75000;
                c.amplitudeThreshold = 20480;
            } else {
                c = p;
                c.mutingThreshold = 0.0875f;
                c.repeat++;
                c.repeatCount++;
            }
        } else {
            c.repeat = c.repeatCount = 0;
        }
        o.repeat = rep;
        bool muted = c.repeatCount >= 4 || c.errorRate > 0.0875f;
        bool copied = rep && pre.p.repeatCount <= 3; // a repeated frame takes over the stored rate, bit for bit
        if (!copied && near_(c.errorRate, 0.0875, 1e-7) && !rate_exact(pre.p.errorRate, in.errs2, 0.0875f)) {
            o.amb = true;
        }
        p = c;
        L.f_spectralAmpEnhance(&c);
        L.f_synthesizeSpeechf(o.a, &c, &e, 3);
        o.kind = muted;
        if (muted) {
            strcat(marks, "M");
        }
        e = c;
        sm_text(o, in.errs2, marks);
        return;
    }
    mbe_parms fresh;
    fresh_ambe(fresh);
    if (fabs(p.mutingThreshold - 0.096f) > 1e-6) {
        c = p = e = fresh;
    }
    c.mutingThreshold = 0.096f;
    c.errorCountTotal = in.errs2;
    c.errorCount4 = 0;
    c.errorRate = (float)(0.95 * (double)p.errorRate + 0.001064 * in.errs2);
    int cls, dsid = 0;
    if (in.codec == A50) {
        Dec dd;
        dec_2450(in.d, p, in.errs2, dd);
        cls = dd.ret;
        uint8_t d2[88];
        memcpy(d2, in.d, 88);
        if (tone2450(in.d) && in.errs2 >= 6) {
            d2[4] ^= 1; // same frame without the tone pattern; the flipped bit is unused for silence/erasure
        }
        L.f_decodeAmbe2450Parms((const char*)d2, &c, &p);
    } else {
        Dec dd;
        dec_2400(in.d, p, dd);
        cls = dd.ret;
        L.f_decodeAmbe2400Parms((const char*)in.d, &c, &p);
        if (cls >= 5) {
            dsid = cls;
        }
    }
    bool rep = false, tone_played = false;
    if (cls == 2) {
        strcat(marks, "E");
        mbe_parms src = p;
        mbe_parms n = fresh;
        n.w0 = 0;
        n.L = 9;
        memcpy(n.PHIl, src.PHIl, sizeof n.PHIl);
        memcpy(n.PSIl, src.PSIl, sizeof n.PSIl);
        memcpy(n.noiseOverlap, src.noiseOverlap, sizeof n.noiseOverlap);
        memcpy(n.previousUw, src.previousUw, sizeof n.previousUw);
        n.noiseSeed = src.noiseSeed;
        n.errorRate = c.errorRate;
        n.errorCountTotal = c.errorCountTotal;
        c = n;
        L.f_synthesizeComfortNoisef(o.a);
        p = e = c;
        o.kind = 3;
        sm_text(o, in.errs2, marks);
        return;
    }
    if (cls == 3 || (cls == 7 && in.codec == A50)) {
        strcat(marks, "T");
        c.repeat = c.repeatCount = 0;
    } else if (dsid && in.errs < 2 && in.errs2 < 3) {
        L.f_synthesizeTonefdstar(o.a, (const char*)in.d, &c, dsid);
        p = c;
        tone_played = true;
    } else {
        if (in.codec == A50 && in.frame) {
            rep = in.errs >= 4 || (in.errs >= 2 && in.errs2 >= 6);
        } else {
            rep = in.errs2 > 3;
        }
        if (rep) {
            strcat(marks, "R");
            c = p;
            c.repeat++;
            c.repeatCount++;
        } else {
            c.repeat = c.repeatCount = 0;
        }
    }
    o.repeat = rep;
    if (cls == 0) {
        if (c.repeat <= 3) {
            p = c;
            L.f_spectralAmpEnhance(&c);
            L.f_synthesizeSpeechf(o.a, &c, &e, 3);
            e = c;
            o.kind = c.repeatCount >= 4;
        } else {
            strcat(marks, "M");
            L.f_synthesizeComfortNoisef(o.a);
            c = p = e = fresh;
            o.kind = 2;
        }
    } else if (cls == 7 && in.codec == A50) {
        int id = tone_id(in.d);
        if (tone_id_valid(id)) {
            L.f_synthesizeTonef(o.a, (const char*)in.d, &c);
            o.kind = 4;
        } else if (p.repeatCount < 4) {
            mbe_parms t = e;
            L.f_synthesizeSpeechf(o.a, &t, &e, 3);
            e = t;
            o.kind = 5;
        } else {
            L.f_synthesizeComfortNoisef(o.a);
            c = p = e = fresh;
            o.kind = 2;
        }
    } else if (tone_played) {
        o.kind = 4;
    } else {
        L.f_synthesizeComfortNoisef(o.a);
        c = p = e = fresh;
        o.kind = 2;
    }
    sm_text(o, in.errs2, marks);
}
