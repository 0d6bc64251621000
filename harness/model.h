// Independent reference model (double precision, own FEC coder/decoder), written from the
// specification formulas and the frozen tables in tables.h. It never calls the library.
#pragma once
#include "hx.h"
#include "tables.h"

namespace md {

static const double PI = 3.14159265358979323846;

// ------------------------------------------------------------------ FEC
struct Fec {
    uint32_t gen[12];
    uint32_t glead[2048];   // syndrome -> error pattern of weight <= 3 over 23 bits
    uint16_t hlead[2][16];  // syndrome -> single error pattern
    uint16_t hgen[2][4];
    Fec() {
        static const uint32_t g[12] = {0x63a, 0x31d, 0x7b4, 0x3da, 0x1ed, 0x6cc,
                                       0x366, 0x1b3, 0x6e3, 0x54b, 0x49f, 0x475};
        memcpy(gen, g, sizeof gen);
        for (auto& x : glead) {
            x = 0xffffffffu;
        }
        glead[0] = 0;
        for (int a = 0; a < 23; a++) {
            glead[gsyn(1u << a)] = 1u << a;
            for (int b = a + 1; b < 23; b++) {
                uint32_t e2 = 1u << a | 1u << b;
                glead[gsyn(e2)] = e2;
                for (int c = b + 1; c < 23; c++) {
                    uint32_t e3 = e2 | 1u << c;
                    glead[gsyn(e3)] = e3;
                }
            }
        }
        static const uint16_t h0[4] = {0x7f08, 0x78e4, 0x66d2, 0x55b1}, h1[4] = {0x7ac8, 0x3d64, 0x1eb2, 0x7591};
        memcpy(hgen[0], h0, 8);
        memcpy(hgen[1], h1, 8);
        for (int k = 0; k < 2; k++) {
            hlead[k][0] = 0;
            for (int b = 0; b < 15; b++) {
                hlead[k][hsyn(k, 1u << b)] = (uint16_t)(1u << b);
            }
        }
    }
    uint32_t gpar(uint32_t data) const {
        uint32_t p = 0;
        for (int i = 0; i < 12; i++) {
            if (data >> (11 - i) & 1) {
                p ^= gen[i];
            }
        }
        return p;
    }
    uint32_t genc(uint32_t data) const { return data << 11 | gpar(data); }
    uint32_t gsyn(uint32_t w) const { return gpar(w >> 11) ^ (w & 0x7ff); }
    uint32_t gnear(uint32_t w) const { return w ^ glead[gsyn(w)]; } // nearest codeword
    uint32_t hsyn(int k, uint32_t w) const {
        uint32_t s = 0;
        for (int i = 0; i < 4; i++) {
            s |= (uint32_t)(__builtin_popcount(w & hgen[k][i]) & 1) << i;
        }
        return s;
    }
    uint32_t hnear(int k, uint32_t w) const { return w ^ hlead[k][hsyn(k, w)]; }
    uint32_t henc(int k, uint32_t data11) const {
        uint32_t w = data11 << 4;
        for (int i = 0; i < 4; i++) { // check i owns parity bit 3-i
            if (__builtin_popcount(w & 0x7ff0 & hgen[k][i]) & 1) {
                w |= 1u << (3 - i);
            }
        }
        return w;
    }
};
inline const Fec& fec() {
    static Fec f;
    return f;
}

// scrambling sequence, out[1..n]
inline void prbs(uint32_t seed, int n, uint8_t* out) {
    uint32_t p = (16 * seed) & 0xffff;
    for (int i = 1; i <= n; i++) {
        p = (173 * p + 13849) & 0xffff;
        out[i] = (uint8_t)(p >> 15);
    }
}

enum Codec { I72, I71, A50, A00, NCODEC };
static const char* const cname[] = {"imbe7200", "imbe7100", "ambe2450", "ambe2400"};
inline bool is_imbe(int c) { return c == I72 || c == I71; }
inline int nbits(int c) { return is_imbe(c) ? 88 : 49; }
inline int frsz(int c) { return c == I72 ? 8 * 23 : c == I71 ? 7 * 24 : 4 * 24; }
inline int frcols(int c) { return c == I72 ? 23 : 24; }

// a protected or plain word of a frame
struct Word {
    int row, hi, lo;  // bit positions hi..lo of that row, MSB first
    int kind;         // 0 plain, 1 golay, 2 hamming std, 3 hamming 7100, 4 shortened golay (18 bits)
    int scram;        // covered by scrambling
};
inline int words(int c, const Word** w) {
    static const Word w72[] = {{0, 22, 0, 1, 0}, {1, 22, 0, 1, 1}, {2, 22, 0, 1, 1}, {3, 22, 0, 1, 1},
                               {4, 14, 0, 2, 1}, {5, 14, 0, 2, 1}, {6, 14, 0, 2, 1}, {7, 6, 0, 0, 0}};
    static const Word w71[] = {{0, 18, 1, 4, 0}, {1, 23, 1, 1, 1}, {2, 22, 0, 1, 1}, {3, 22, 0, 1, 1},
                               {4, 14, 0, 3, 1}, {5, 14, 0, 3, 1}, {6, 22, 0, 0, 0}};
    static const Word wa[] = {{0, 23, 1, 1, 0}, {1, 22, 0, 1, 1}, {2, 10, 0, 0, 0}, {3, 13, 0, 0, 0}};
    if (c == I72) {
        *w = w72;
        return 8;
    }
    if (c == I71) {
        *w = w71;
        return 7;
    }
    *w = wa;
    return 4;
}
// scramble/descramble fr in place with the seed taken from the (already corrected) first word
inline void scramble(int c, uint8_t* fr) {
    uint8_t pr[128];
    uint32_t seed = 0;
    const int C = frcols(c);
    if (c == I72) {
        for (int j = 22; j >= 11; j--) {
            seed = seed << 1 | fr[j];
        }
        prbs(seed, 114, pr);
    } else if (c == I71) {
        for (int j = 18; j >= 12; j--) {
            seed = seed << 1 | fr[j];
        }
        prbs(seed, 100, pr);
    } else {
        for (int j = 23; j >= 12; j--) {
            seed = seed << 1 | fr[j];
        }
        prbs(seed, 23, pr);
    }
    int k = 1;
    static const int top72[] = {0, 22, 22, 22, 14, 14, 14}, top71[] = {0, 23, 22, 22, 14, 14};
    int rows = c == I72 ? 7 : c == I71 ? 6 : 2;
    for (int r = 1; r < rows; r++) {
        int top = c == I72 ? top72[r] : c == I71 ? top71[r] : 22;
        for (int j = top; j >= 0; j--) {
            fr[r * C + j] ^= pr[k++];
        }
    }
}
inline uint32_t getw(const uint8_t* fr, int C, const Word& w) {
    uint32_t v = 0;
    for (int j = w.hi; j >= w.lo; j--) {
        v = v << 1 | fr[w.row * C + j];
    }
    return v;
}
inline void putw(uint8_t* fr, int C, const Word& w, uint32_t v) {
    for (int j = w.lo; j <= w.hi; j++) {
        fr[w.row * C + j] = (uint8_t)(v & 1);
        v >>= 1;
    }
}
// encode parameter bits (for I71: in the 7100 layout) into a transmitted frame; untouched cells = fill
inline void encode(int c, const uint8_t* d, uint8_t* fr, uint8_t fill = 0) {
    const Fec& F = fec();
    const Word* W;
    int n = words(c, &W), C = frcols(c), k = 0;
    memset(fr, fill, (size_t)frsz(c));
    for (int i = 0; i < n; i++) {
        int len = W[i].hi - W[i].lo + 1;
        int db = W[i].kind == 0 ? len : W[i].kind == 1 ? 12 : W[i].kind == 4 ? 7 : 11;
        uint32_t v = 0;
        for (int b = 0; b < db; b++) {
            v = v << 1 | d[k++];
        }
        if (W[i].kind == 1 || W[i].kind == 4) {
            v = F.genc(v);
        } else if (W[i].kind == 2 || W[i].kind == 3) {
            v = F.henc(W[i].kind - 2, v);
        }
        putw(fr, C, W[i], v);
    }
    if (!is_imbe(c)) { // even overall parity of the 24-bit first word
        int p = 0;
        for (int j = 1; j < 24; j++) {
            p ^= fr[j];
        }
        fr[0] = (uint8_t)p;
    }
    scramble(c, fr);
}
struct FecOut {
    uint8_t d[88];
    int errs, errs2, c4;
    uint8_t fr[8 * 24]; // frame after first-word correction and descrambling
};
inline void decode(int c, const uint8_t* in, FecOut& o) {
    memset(&o, 0, sizeof o);
    const Fec& F = fec();
    const Word* W;
    int n = words(c, &W), C = frcols(c), k = 0;
    memcpy(o.fr, in, (size_t)frsz(c));
    // first word
    uint32_t w0 = getw(o.fr, C, W[0]);
    uint32_t cw = F.gnear(w0);
    o.errs = __builtin_popcount((cw ^ w0) >> 11);
    uint32_t fixed = (cw & ~0x7ffu) | (w0 & 0x7ffu);
    if (c == I71) {
        // shortened word: positions above bit 17 are implied zeros and not part of the frame
        fixed &= 0x3ffff;
    }
    putw(o.fr, C, W[0], fixed);
    if (!is_imbe(c) && o.errs == 0) {
        int ones = 0;
        for (int j = 0; j < 24; j++) {
            ones += o.fr[j];
        }
        if (ones & 1) {
            o.fr[0] ^= 1;
            o.errs = 1;
        }
    }
    scramble(c, o.fr);
    o.errs2 = o.errs;
    o.c4 = 0;
    for (int i = 0; i < n; i++) {
        uint32_t v = getw(o.fr, C, W[i]);
        int db = W[i].hi - W[i].lo + 1;
        if (W[i].kind == 4) {
            v >>= 11;
            db = 7;
        } else if (W[i].kind == 1) {
            uint32_t x = i == 0 ? v : F.gnear(v); // first word was corrected above
            if (i > 0) {
                o.errs2 += __builtin_popcount((x ^ v) >> 11);
            }
            v = x >> 11;
            db = 12;
        } else if (W[i].kind >= 2) {
            uint32_t x = F.hnear(W[i].kind - 2, v);
            o.errs2 += x != v;
            if (W[i].row == 4) {
                o.c4 = x != v;
            }
            v = x >> 4;
            db = 11;
        }
        for (int b = db - 1; b >= 0; b--) {
            o.d[k++] = (uint8_t)(v >> b & 1);
        }
    }
}
inline int imbe_L(int b0) { return (int)(0.9254 * (int)((b0 + 39.5) / 4.0 + 0.25)); }
inline int imbe_K(int L) { return L < 37 ? (L + 2) / 3 : 12; }
// source index in the 7100 layout of each 7200-layout position
inline void map7100(int b0, int* src) {
    int K = imbe_K(imbe_L(b0));
    src[87] = 0;
    src[48 + K] = 42;
    src[49 + K] = 43;
    for (int i = 0; i < K; i++) {
        src[48 + i] = 44 + i;
    }
    for (int j = 0; j < 48; j++) { // 1..41 then, past the voicing block, 44+K..
        src[j] = j + 1 < 42 ? j + 1 : j + 1 + K + 2;
    }
    for (int j = 50 + K; j < 87; j++) {
        src[j] = j + 1;
    }
}
inline int b0_7100(const uint8_t* d) {
    return d[1] << 7 | d[2] << 6 | d[3] << 5 | d[4] << 4 | d[5] << 3 | d[6] << 2 | d[86] << 1 | d[87];
}
inline void conv7100(const uint8_t* in, uint8_t* out) {
    int src[88];
    map7100(b0_7100(in), src);
    for (int i = 0; i < 88; i++) {
        out[i] = in[src[i]];
    }
}
// inverse of conv7100 (build a 7100-layout vector whose 7200 form is d)
inline void inv7100(const uint8_t* d, uint8_t* out) {
    int src[88];
    int b0 = d[0] << 7 | d[1] << 6 | d[2] << 5 | d[3] << 4 | d[4] << 3 | d[5] << 2 | d[85] << 1 | d[86];
    map7100(b0, src);
    for (int i = 0; i < 88; i++) {
        out[src[i]] = d[i];
    }
}

// ------------------------------------------------------------------ parameter decoding
struct Dec {
    int ret;              // class: IMBE 0/1; AMBE 0/2/3/7/tone index
    bool model;           // parameters below are meaningful (voice or silence)
    double w0;
    int L, K;             // K only for IMBE
    int V[58];
    bool Vamb[58];
    double lg[58];        // log2 amplitudes
    double gamma;
    double unvc;          // scale of unvoiced bands (AMBE), 1 for IMBE
    bool sil;             // silence-class (voicing forced 0)
    bool set_model;       // class 3 in 2400: w0/L/V overwritten
    double lgtol;
};
inline int f(const uint8_t* d, std::initializer_list<int> ix) {
    int v = 0;
    for (int i : ix) {
        v = v << 1 | d[i];
    }
    return v;
}
inline int imbe_b0(const uint8_t* d) { return f(d, {0, 1, 2, 3, 4, 5, 85, 86}); }

// interpolation of the previous log amplitudes (harmonics 0..56 of p, count pL) to L bands
inline void interp(const float* p, int pL, int L, double low, double* out) {
    double ext[60];
    ext[0] = low;
    for (int l = 1; l <= 57; l++) {
        ext[l] = l <= pL ? p[l] : (L > pL ? (double)p[pL] : (double)p[l > 56 ? 56 : l]);
    }
    for (int l = 1; l <= L; l++) {
        double x = (double)pL * l / L;
        int k = (int)x;
        double dl = x - k;
        double hi = dl > 0 ? ext[k + 1] : 0;
        out[l] = (1 - dl) * ext[k] + dl * hi;
    }
}
inline double maxabs(const float* p, int a, int b) {
    double m = 0;
    for (int i = a; i <= b; i++) {
        m = fmax(m, fabs((double)p[i]));
    }
    return m;
}

inline void dec_imbe(const uint8_t* d, const mbe_parms& prev, Dec& o) {
    memset(&o, 0, sizeof o);
    int b0 = imbe_b0(d);
    if (b0 > 207) {
        o.ret = 1;
        return;
    }
    o.model = true;
    o.unvc = 1;
    o.w0 = 4 * PI / (b0 + 39.5);
    int L = o.L = imbe_L(b0), K = o.K = imbe_K(L), L9 = L - 9;
    static thread_local uint8_t bb[58][12];
    memset(bb, 0, sizeof bb);
    for (int i = 0; i < 79; i++) {
        bb[tab::imbe::bo[L9][i][0]][tab::imbe::bo[L9][i][1]] = d[6 + i];
    }
    for (int l = 1; l <= L; l++) {
        int band = (l - 1) / 3;
        int k = K - 1 - band;
        o.V[l] = bb[1][k < 0 ? 0 : k];
    }
    double G[7], R[7];
    int b2 = 0;
    for (int b = 5; b >= 0; b--) {
        b2 = b2 << 1 | bb[2][b];
    }
    G[1] = tab::imbe::B2[b2];
    for (int i = 2; i <= 6; i++) {
        int n = (int)tab::imbe::ba[L9][i - 2][0];
        int bm = 0;
        for (int b = n - 1; b >= 0; b--) {
            bm = bm << 1 | bb[i + 1][b];
        }
        G[i] = tab::imbe::ba[L9][i - 2][1] * (bm - ldexp(1.0, n - 1) + 0.5);
    }
    for (int i = 1; i <= 6; i++) {
        R[i] = G[1];
        for (int m = 2; m <= 6; m++) {
            R[i] += 2 * G[m] * cos(PI * (m - 1) * (i - 0.5) / 6);
        }
    }
    double T[58];
    int l = 1, m = 8;
    double Cmax = 0;
    for (int i = 1; i <= 6; i++) {
        int J = tab::imbe::ImbeJi[L9][i - 1];
        double Cc[12];
        Cc[1] = R[i];
        for (int k = 2; k <= J; k++, m++) {
            int B = (int)tab::imbe::hoba[L9][m - 8];
            if (!B) {
                Cc[k] = 0;
                continue;
            }
            int bm = 0;
            for (int b = B - 1; b >= 0; b--) {
                bm = bm << 1 | bb[m][b];
            }
            Cc[k] = (double)tab::imbe::quantstep[B - 1] * tab::imbe::standdev[k - 2] * (bm - ldexp(1.0, B - 1) + 0.5);
        }
        for (int j = 1; j <= J; j++, l++) {
            T[l] = Cc[1];
            for (int k = 2; k <= J; k++) {
                T[l] += 2 * Cc[k] * cos(PI * (k - 1) * (j - 0.5) / J);
            }
            Cmax = fmax(Cmax, fabs(T[l]));
        }
    }
    double rho = L <= 15 ? 0.4 : L <= 24 ? 0.03 * L - 0.05 : 0.7;
    double ip[58], mean = 0;
    interp(prev.log2Ml, prev.L, L, prev.log2Ml[0], ip);
    for (l = 1; l <= L; l++) {
        mean += ip[l];
    }
    mean /= L;
    for (l = 1; l <= L; l++) {
        o.lg[l] = T[l] + rho * (ip[l] - mean);
    }
    o.gamma = 0;
    o.lgtol = 1e-5 * (1 + maxabs(prev.log2Ml, 0, 56) + Cmax) * 8;
}

// shared tail of the two half-rate decoders
struct AmbeTabs {
    const int* Vuv; // [n][8]
    const int (*J)[4];
    const float* dg;
    const float (*p24)[3];
    const float (*p58)[4];
    const float (*h[4])[4];
};
inline void ambe_model(const mbe_parms& prev, Dec& o, double f0, int b1, int b2, int b3, int b4, const int* hoc,
                       const int Vrow[8], const double* dg, const double g24[3], const double g58[4],
                       const int J[4], const double hocv[4][4]) {
    (void)b1;
    (void)b2;
    (void)b3;
    (void)b4;
    (void)hoc;
    o.model = true;
    int L = o.L;
    o.unvc = 0.2046 / sqrt(o.w0);
    for (int l = 1; l <= L; l++) {
        double x = l * 16.0 * f0;
        if (o.sil) {
            o.V[l] = 0;
            continue;
        }
        int jl = (int)x;
        o.V[l] = Vrow[jl > 7 ? 7 : jl];
        double fr = x - floor(x + 0.5);
        if (fabs(fr) < 2e-5 * (1 + x)) {
            int other = fr >= 0 ? jl - 1 : jl + 1;
            if (other >= 0 && other < 8 && Vrow[other] != o.V[l]) {
                o.Vamb[l] = true;
            }
        }
    }
    o.gamma = *dg + 0.5 * prev.gamma;
    double G[9] = {0, 0, g24[0], g24[1], g24[2], g58[0], g58[1], g58[2], g58[3]};
    double R[9];
    for (int i = 1; i <= 8; i++) {
        R[i] = 0;
        for (int m = 2; m <= 8; m++) {
            R[i] += 2 * G[m] * cos(PI * (m - 1) * (i - 0.5) / 8);
        }
    }
    double T[58], sum = 0, Cmax = 0;
    int l = 1;
    for (int i = 0; i < 4; i++) {
        double Cc[20] = {0};
        double a = R[2 * i + 1], b = R[2 * i + 2];
        Cc[1] = 0.5 * (a + b);
        Cc[2] = (a - b) / (2 * sqrt(2.0));
        for (int k = 3; k <= J[i] && k <= 6; k++) {
            Cc[k] = hocv[i][k - 3];
        }
        for (int j = 1; j <= J[i]; j++, l++) {
            double s = Cc[1];
            for (int k = 2; k <= J[i]; k++) {
                s += 2 * Cc[k] * cos(PI * (k - 1) * (j - 0.5) / J[i]);
            }
            T[l] = s;
            sum += s;
            Cmax = fmax(Cmax, fabs(s));
        }
    }
    double ip[58], mean = 0;
    interp(prev.log2Ml, prev.L, L, prev.log2Ml[1], ip);
    for (l = 1; l <= L; l++) {
        mean += ip[l];
    }
    mean /= L;
    for (l = 1; l <= L; l++) {
        o.lg[l] = T[l] + 0.65 * (ip[l] - mean) + o.gamma - 0.5 * log2((double)L) - sum / L;
    }
    o.lgtol = 1e-5 * (1 + maxabs(prev.log2Ml, 1, 56) + Cmax + fabs(o.gamma)) * 8;
}

inline bool tone2450(const uint8_t* d) {
    bool all1 = true;
    for (int i = 0; i < 6; i++) {
        all1 &= d[i] == 1;
    }
    if (!all1) {
        return false;
    }
    int u3low = f(d, {45, 46, 47, 48});
    int hi = f(d, {12, 13, 14, 15}), lo = f(d, {20, 21, 22, 23});
    return u3low == 0 || hi == lo;
}
inline bool tone_id_valid(int id) { return (id >= 5 && id <= 122) || (id >= 128 && id <= 163); }

inline void dec_2450(const uint8_t* d, const mbe_parms& prev, int total_errors, Dec& o) {
    using namespace tab::a2450;
    memset(&o, 0, sizeof o);
    int b0 = f(d, {0, 1, 2, 3, 37, 38, 39});
    if (tone2450(d) && total_errors < 6) {
        o.ret = 7;
        return;
    }
    if ((b0 >= 120 && b0 <= 123) || b0 >= 126) {
        o.ret = 2;
        return;
    }
    double f0;
    if (b0 == 124 || b0 == 125) {
        f0 = PI / 32;
        o.sil = true;
        o.L = b0 == 124 ? 15 : 14;
    } else {
        f0 = AmbeW0table[b0];
        o.L = (int)AmbeLtable[b0];
    }
    o.w0 = 2 * PI * f0;
    int b1 = f(d, {4, 5, 6, 7, 35}), b2 = f(d, {8, 9, 10, 11, 36});
    int b3 = f(d, {12, 13, 14, 15, 16, 17, 18, 19, 40}), b4 = f(d, {20, 21, 22, 23, 41, 42, 43});
    int b5 = f(d, {24, 25, 26, 27, 44}), b6 = f(d, {28, 29, 30, 45}), b7 = f(d, {31, 32, 33, 46}),
        b8 = f(d, {34, 47, 48});
    int V[8], J[4];
    double dg = AmbeDg[b2], g24[3], g58[4], h[4][4];
    for (int i = 0; i < 8; i++) {
        V[i] = AmbeVuv[b1][i];
    }
    for (int i = 0; i < 3; i++) {
        g24[i] = AmbePRBA24[b3][i];
    }
    for (int i = 0; i < 4; i++) {
        g58[i] = AmbePRBA58[b4][i];
        J[i] = AmbeLmprbl[o.L][i];
        h[0][i] = AmbeHOCb5[b5][i];
        h[1][i] = AmbeHOCb6[b6][i];
        h[2][i] = AmbeHOCb7[b7][i];
        h[3][i] = AmbeHOCb8[b8][i];
    }
    ambe_model(prev, o, f0, b1, b2, b3, b4, nullptr, V, &dg, g24, g58, J, h);
}

inline int dstar_tone_index(const uint8_t* d) {
    static const uint8_t t7[8] = {1, 0, 0, 0, 0, 1, 1, 1}, t6[8] = {0, 0, 0, 1, 1, 1, 1, 0},
                         t5[8] = {0, 0, 1, 0, 1, 1, 0, 1};
    int x = f(d, {6, 7, 8});
    return t7[x] << 7 | t6[x] << 6 | t5[x] << 5 | f(d, {9, 42, 43, 10, 11});
}
inline int b0_2400(const uint8_t* d) { return f(d, {0, 1, 2, 3, 4, 5, 48}); }
inline void dec_2400(const uint8_t* d, const mbe_parms& prev, Dec& o) {
    using namespace tab::a2400;
    memset(&o, 0, sizeof o);
    int b0 = b0_2400(d);
    if (b0 >= 126) {
        int id = dstar_tone_index(d);
        if (id >= 5 && id <= 122) {
            o.ret = id;
        } else {
            o.ret = 3;
            if (!(id >= 128 && id <= 163)) {
                o.set_model = true;
                o.w0 = 2 * PI / 32;
                o.L = 14;
            }
        }
        return;
    }
    double f0 = exp2(-4.311767578125 - 2.1336e-2 * (b0 + 0.5));
    o.w0 = 2 * PI * f0;
    o.L = (int)AmbePlusLtable[b0];
    int b1 = f(d, {38, 39, 40, 41}), b2 = f(d, {6, 7, 8, 9, 42, 43});
    int b3 = f(d, {10, 11, 12, 13, 14, 15, 16, 44, 45}), b4 = f(d, {17, 18, 19, 20, 21, 46, 47});
    int b5 = f(d, {22, 23, 25, 26}), b6 = f(d, {27, 28, 29, 30}), b7 = f(d, {31, 32, 33, 34}),
        b8 = f(d, {35, 36, 37}) << 1;
    int V[8], J[4];
    double dg = AmbePlusDg[b2], g24[3], g58[4], h[4][4];
    for (int i = 0; i < 8; i++) {
        V[i] = AmbePlusVuv[b1][i];
    }
    for (int i = 0; i < 3; i++) {
        g24[i] = AmbePlusPRBA24[b3][i];
    }
    for (int i = 0; i < 4; i++) {
        g58[i] = AmbePlusPRBA58[b4][i];
        J[i] = AmbePlusLmprbl[o.L][i];
        h[0][i] = AmbePlusHOCb5[b5][i];
        h[1][i] = AmbePlusHOCb6[b6][i];
        h[2][i] = AmbePlusHOCb7[b7][i];
        h[3][i] = AmbePlusHOCb8[b8][i];
    }
    ambe_model(prev, o, f0, b1, b2, b3, b4, nullptr, V, &dg, g24, g58, J, h);
}

// ------------------------------------------------------------------ enhancement
struct Enh {
    bool noshape, amb;
    double M[58], lo[58], hi[58]; // value and the interval reachable by single-precision evaluation
    double rm0;
};
inline void enhance(const mbe_parms& p, Enh& o, double eps = 1.5e-5) {
    memset(&o, 0, sizeof o);
    int L = p.L;
    double r0 = 0, r1 = 0;
    for (int l = 1; l <= L; l++) {
        double q = (double)p.Ml[l] * p.Ml[l];
        r0 += q;
        r1 += q * cos((double)p.w0 * l);
        o.M[l] = p.Ml[l];
    }
    o.rm0 = r0;
    double w0 = p.w0;
    if (r0 <= 0 || w0 <= 0) {
        o.noshape = true;
        return;
    }
    // weight^4 = .96 pi (1 + c^2 - 2 c cos(w0 l)) / (w0 r0 (1 - c^2)) * M^2 with c = r1/r0
    double c = r1 / r0, den = 1 - c * c;
    if (!(den > 20 * eps)) {
        o.noshape = !(den > 0);
        o.amb = true;
        return;
    }
    double s = 0, slo = 0, shi = 0;
    for (int l = 1; l <= L; l++) {
        o.lo[l] = o.hi[l] = o.M[l];
        if (p.Ml[l] != 0 && 8 * l > L) {
            double num = 1 + c * c - 2 * c * cos(w0 * l), k = 0.96 * PI / (w0 * r0) * p.Ml[l] * p.Ml[l];
            double W = pow(k * fmax(0, num) / den, 0.25), Wl = pow(k * fmax(0, num - eps) / (den + eps), 0.25),
                   Wh = pow(k * (num + eps) / (den - eps), 0.25);
            o.M[l] *= fmin(1.2, fmax(0.5, W));
            o.lo[l] *= fmin(1.2, fmax(0.5, Wl));
            o.hi[l] *= fmin(1.2, fmax(0.5, Wh));
        }
        s += o.M[l] * o.M[l];
        slo += o.lo[l] * o.lo[l];
        shi += o.hi[l] * o.hi[l];
    }
    double g = s > 0 ? sqrt(r0 / s) : 1, gl = shi > 0 ? sqrt(r0 / shi) : 1, gh = slo > 0 ? sqrt(r0 / slo) : 1;
    for (int l = 1; l <= L; l++) {
        o.M[l] *= g;
        o.lo[l] *= gl * (1 - 1e-5);
        o.hi[l] *= gh * (1 + 1e-5);
        if (o.M[l] < 0) { // heavily errored frames leave negative amplitudes: weighed by magnitude
            double t = o.lo[l];
            o.lo[l] = o.hi[l];
            o.hi[l] = t;
        }
    }
}

// ------------------------------------------------------------------ adaptive smoothing
struct Smooth {
    double energy;
    int Tm;
    bool Vamb[58];
    int V[58];
    double M[58];
    bool scaled, scale_amb, vm_inf, branch_amb;
    double VM, Am;
};
inline void smooth(const mbe_parms& cur, const mbe_parms& prev, double rm0, Smooth& o) {
    memset(&o, 0, sizeof o);
    int L = cur.L;
    double pe = prev.localEnergy < 10000.0f ? 75000.0 : prev.localEnergy;
    o.energy = 0.95 * pe + 0.05 * rm0;
    if (o.energy < 10000) {
        o.energy = 10000;
    }
    float er = cur.errorRate;
    int tot = cur.errorCountTotal;
    double e38 = pow(o.energy, 0.375);
    o.branch_amb = fabs(er - 0.005) < 1e-7 || fabs(er - 0.0125) < 1e-7;
    if (er <= 0.005f && tot <= 4) {
        o.vm_inf = true;
        o.VM = 3.4e38;
    } else if (er <= 0.0125f && cur.errorCount4 == 0) {
        o.VM = 45.255 * e38 / exp(277.26 * (double)er);
    } else {
        o.VM = 1.414 * e38;
    }
    for (int l = 1; l <= L; l++) {
        double M = cur.Ml[l];
        o.V[l] = cur.Vl[l];
        if (!o.vm_inf && M > o.VM) {
            o.V[l] = 1;
        }
        if (!o.vm_inf && fabs(M - o.VM) < 1e-4 * o.VM) {
            o.Vamb[l] = true;
        }
        o.Am += M;
        o.M[l] = M;
    }
    int64_t pt = prev.amplitudeThreshold <= 0 ? 20480 : prev.amplitudeThreshold;
    if (pt > INT32_MAX - 6000) {
        pt = INT32_MAX - 6000;
    }
    if (er <= 0.005f && tot <= 6) {
        o.Tm = 20480;
    } else {
        int64_t t = 6000 - 300 * (int64_t)tot + pt;
        o.Tm = (int)(t < INT32_MIN ? INT32_MIN : t > INT32_MAX ? INT32_MAX : t);
    }
    o.scale_amb = fabs(o.Am - (double)o.Tm) < 1e-4 * fmax(1, fabs(o.Am));
    if (o.Am > o.Tm && o.Am > 0) {
        o.scaled = true;
        for (int l = 1; l <= L; l++) {
            o.M[l] *= o.Tm / o.Am;
        }
    }
}

// ------------------------------------------------------------------ synthesis
inline double win_ws(int i) { // voiced window, index 0..320, centre 160
    double v = (105 - abs(i - 160)) * 0.02;
    return v < 0 ? 0 : v > 1 ? 1 : v;
}
inline double win_uv(int n) { // unvoiced window
    if (n < -105 || n > 105) {
        return 0;
    }
    if (n < 55) {
        double v = (105 + n) * 0.02;
        return v > 1 ? 1 : v;
    }
    return n < 90 ? 1 - (n - 54) * 0.02 : (105 - n) * 0.02;
}
struct Trig {
    double c[256], s[256];
    Trig() {
        for (int i = 0; i < 256; i++) {
            c[i] = cos(2 * PI * i / 256);
            s[i] = sin(2 * PI * i / 256);
        }
    }
};
inline const Trig& trig() {
    static Trig t;
    return t;
}
inline void dft256(const double* x, double* re, double* im) { // bins 0..128
    const Trig& t = trig();
    for (int k = 0; k <= 128; k++) {
        double a = 0, b = 0;
        for (int n = 0; n < 256; n++) {
            int ph = (k * n) & 255;
            a += x[n] * t.c[ph];
            b -= x[n] * t.s[ph];
        }
        re[k] = a;
        im[k] = b;
    }
}
inline void idft256(const double* re, const double* im, double* x) {
    const Trig& t = trig();
    for (int n = 0; n < 256; n++) {
        double a = re[0] + (n & 1 ? -re[128] : re[128]);
        for (int k = 1; k < 128; k++) {
            int ph = (k * n) & 255;
            a += 2 * (re[k] * t.c[ph] - im[k] * t.s[ph]);
        }
        x[n] = a / 256;
    }
}
// noise generator: pre-state -> buffer[256], post seed, post overlap
struct Noise {
    float buf[256];
    float seed;
    float ov[96];
};
inline uint32_t lcg(uint32_t x) { return (171u * x + 11213u) % 53125u; }
inline void noise(const mbe_parms& cur, double cold_seed, Noise& o) {
    if (cur.noiseSeed < 0) {
        memset(&o, 0, sizeof o);
        o.seed = (float)cold_seed;
        return;
    }
    memcpy(o.buf, cur.noiseOverlap, sizeof o.ov);
    uint32_t st = (uint32_t)cur.noiseSeed % 53125u;
    for (int i = 96; i < 256; i++) {
        o.buf[i] = (float)st;
        st = lcg(st);
    }
    o.seed = (float)st;
    memcpy(o.ov, o.buf + 160, sizeof o.ov);
}
struct Bands {
    int a[58], b[58];
    bool amb;
};
inline void bands(double w0, int L, Bands& o) {
    double m = 256.0 / (2 * PI) * w0;
    o.amb = false;
    for (int l = 1; l <= L; l++) {
        double x = (l - 0.5) * m, y = (l + 0.5) * m;
        if (m > 0 && ((fabs(x - floor(x + 0.5)) < 1e-4 && x < 128.5) || (fabs(y - floor(y + 0.5)) < 1e-4 && y < 128.5))) {
            o.amb = true;
        }
        o.a[l] = (int)ceil(x);
        o.b[l] = (int)ceil(y);
        if (o.b[l] > 128) {
            o.b[l] = 128;
        }
    }
}
// unvoiced segment of the current frame (after inverse transform) for the final V/M
inline void unvoiced(const Noise& nz, double w0, int L, const int* V, const float* M, double* Uw, Bands& bd,
                     double* smax) {
    double x[256], re[129], im[129], sc[129] = {0};
    for (int i = 0; i < 256; i++) {
        x[i] = nz.buf[i] * win_uv(i - 128);
    }
    dft256(x, re, im);
    bands(w0, L, bd);
    for (int l = 1; l <= L; l++) {
        if (V[l] != 0 || bd.b[l] <= bd.a[l]) {
            continue;
        }
        double num = 0;
        for (int k = bd.a[l]; k < bd.b[l]; k++) {
            num += re[k] * re[k] + im[k] * im[k];
        }
        if (num <= 1e-10) {
            continue;
        }
        double s = 146.17696 * M[l] / sqrt(num / (bd.b[l] - bd.a[l]));
        for (int k = bd.a[l]; k < bd.b[l]; k++) {
            sc[k] = s;
        }
    }
    double mx = 0;
    for (int k = 0; k <= 128; k++) {
        re[k] *= sc[k];
        im[k] *= sc[k];
    }
    idft256(re, im, Uw);
    for (int i = 0; i < 256; i++) {
        mx = fmax(mx, fabs(Uw[i]));
    }
    *smax = mx;
}
inline void wola(const float* prevUw, const double* Uw, double* out) {
    for (int n = 0; n < 160; n++) {
        double wp = win_uv(n), wc = win_uv(n - 160);
        double p = n + 128 < 256 ? prevUw[n + 128] : 0, c = n - 32 >= 0 ? Uw[n - 32] : 0;
        double den = wp * wp + wc * wc;
        if (den > 1e-10) {
            out[n] += (wp * p + wc * c) / den;
        }
    }
}
static const double CLIP = 32767.0 * 0.95 / 7.0;
static const double MUTE_IMBE = 0.0875, MUTE_AMBE = 0.096;

// ------------------------------------------------------------------ tones
inline int tone_freqs(int id, double* f1, double* f2) { // 0 none, 1 single, 2 dual
    static const double T[36][2] = {
        {1336, 941}, {1209, 697}, {1336, 697}, {1477, 697}, {1209, 770}, {1336, 770}, {1477, 770}, {1209, 852},
        {1336, 852}, {1477, 852}, {1633, 697}, {1633, 770}, {1633, 852}, {1633, 941}, {1209, 941}, {1477, 941},
        {1162, 820}, {1052, 606}, {1162, 606}, {1279, 606}, {1052, 672}, {1162, 672}, {1279, 672}, {1052, 743},
        {1162, 743}, {1279, 743}, {1430, 606}, {1430, 672}, {1430, 743}, {1430, 820}, {1052, 820}, {1279, 820},
        {440, 350},  {480, 440},  {620, 480},  {490, 350}};
    if (id >= 5 && id <= 122) {
        *f1 = *f2 = 31.25 * id;
        return 1;
    }
    if (id >= 128 && id <= 163) {
        *f1 = T[id - 128][0];
        *f2 = T[id - 128][1];
        return 2;
    }
    return 0;
}
struct Tone {
    bool audible;
    double out[160];
    int swn, un;
};
inline void tone(int id, int amp, int swn, int un, Tone& o) {
    double f1 = 0, f2 = 0;
    int k = tone_freqs(id, &f1, &f2);
    memset(o.out, 0, sizeof o.out);
    o.swn = swn;
    o.un = un;
    o.audible = k > 0;
    if (!k) {
        return;
    }
    double gain = amp / 127.0 * CLIP;
    uint32_t s1 = (uint32_t)floor(f1 / 8000 * 4294967296.0 + 0.5), s2 = (uint32_t)floor(f2 / 8000 * 4294967296.0 + 0.5);
    uint32_t p1 = (uint32_t)swn, p2 = (uint32_t)un;
    for (int n = 0; n < 160; n++) {
        p1 += s1;
        double v = sin(2 * PI * (p1 / 4294967296.0) - PI / 2);
        if (k == 2) {
            p2 += s2;
            v = 0.5 * v + 0.5 * sin(2 * PI * (p2 / 4294967296.0) - PI / 2);
        }
        o.out[n] = gain * v;
    }
    o.swn = (int)p1;
    o.un = (int)p2;
}
inline int tone_id(const uint8_t* d) { return f(d, {12, 13, 14, 15, 16, 17, 18, 19}); }
inline int tone_amp(const uint8_t* d) { return f(d, {6, 7, 8, 9, 10, 11}) << 1 | d[44]; }

// ------------------------------------------------------------------ comfort noise
struct Comfort {
    uint64_t s;
    static uint64_t init(uint32_t seed, bool dflt) {
        uint64_t x = dflt ? 0x12345678ull : (seed == 0 ? 0x6d25357bull : seed);
        return (x ^ 0x5DEECE66Dull) & ((1ull << 48) - 1);
    }
    double next() {
        s = (s * 0x5DEECE66Dull + 0xB) & ((1ull << 48) - 1);
        return ((double)(s >> 24) / 16777216.0 * 2 - 1) * (0.003 * 32767.0 / 7.0);
    }
};
} // namespace md
