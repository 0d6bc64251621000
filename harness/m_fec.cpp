// P03-P09: FEC, descrambling and layout conversion against an independent encoder/decoder.
#include "gen.h"

static void bits_lsb(uint32_t w, int n, char* b) {
    for (int i = 0; i < n; i++) {
        b[i] = (char)(w >> i & 1);
    }
}
static uint32_t from_lsb(const char* b, int n) {
    uint32_t w = 0;
    for (int i = 0; i < n; i++) {
        w |= (uint32_t)(b[i] & 1) << i;
    }
    return w;
}
static bool isbits(const char* b, int n) {
    for (int i = 0; i < n; i++) {
        if (b[i] != 0 && b[i] != 1) {
            return false;
        }
    }
    return true;
}

// every 23-bit word; 256 cases of 2^15 words
MODE(golay) {
    const Fec& F = fec();
    GBuf in(23), out(23), blk(sizeof(long));
    for (int li = 0; li < cx.nlib; li++) {
        Lib& L = cx.libs[li];
        for (uint32_t k = 0; k < 32768; k++) {
            // odd multiplier: a bijection of 0..2^23-1, so that neighbouring calls are unrelated words
            uint32_t w = (((uint32_t)cx.caseno << 15 | k) * 2654435761u) & 0x7fffff;
            bits_lsb(w, 23, in.c());
            memset(out.p, 9, 23);
            int n = L.f_golay2312(in.c(), out.c());
            uint32_t cw = F.gnear(w), exp = (cw & ~0x7ffu) | (w & 0x7ff);
            int want = __builtin_popcount((cw ^ w) >> 11);
            if (!isbits(out.c(), 23) || from_lsb(out.c(), 23) != exp || n != want) {
                viol("golay", "%s word %06x -> %06x count %d, want %06x count %d", L.name, w, from_lsb(out.c(), 23), n, exp,
                     want);
                return;
            }
            if (from_lsb(in.c(), 23) != w) {
                viol("golay-input", "input word %06x was modified", w);
                return;
            }
            // packed variant, with arbitrary bits above the word
            uint64_t hi = k % 3 == 0 ? 0 : k % 3 == 1 ? cx.r.u64() : ~0ull;
            long v = (long)((hi & ~0x7fffffull) | w);
            memcpy(blk.p, &v, sizeof v);
            L.f_checkGolayBlock((long*)blk.p);
            memcpy(&v, blk.p, sizeof v);
            if (v != (long)(cw >> 11)) {
                viol("golay-block", "word %06x upper %llx -> %lx, want %x", w, (unsigned long long)(hi >> 23), v, cw >> 11);
                return;
            }
            sig(F.gsyn(w) * 8 + (uint32_t)n);
            if (!in.ok() || !out.ok() || !blk.ok()) {
                viol("golay-bounds", "write outside the 23-bit arrays for word %06x", w);
                return;
            }
        }
        evals(65536);
        CNTN("golay words", 32768);
        // neighbouring words and all four block decoders in any order: no call may depend on the one before it
        uint32_t w = cx.r.u32() & 0x7fffff;
        for (int k = 0; k < 4096; k++) {
            if (cx.r.chance(0.8)) {
                w ^= 1u << cx.r.below(23);
                if (cx.r.bit()) {
                    w ^= 1u << cx.r.below(23);
                }
            } else if (cx.r.bit()) {
                w = cx.r.u32() & 0x7fffff;
            }
            uint32_t cw = F.gnear(w);
            int which = cx.r.below(4);
            if (which == 0) {
                long v = (long)w;
                memcpy(blk.p, &v, sizeof v);
                L.f_checkGolayBlock((long*)blk.p);
                memcpy(&v, blk.p, sizeof v);
                if (v != (long)(cw >> 11)) {
                    viol("golay-block", "word %06x after other calls -> %lx, want %x", w, v, cw >> 11);
                    return;
                }
            } else if (which == 1) {
                bits_lsb(w, 23, in.c());
                int n = L.f_golay2312(in.c(), out.c());
                uint32_t exp = (cw & ~0x7ffu) | (w & 0x7ff);
                if (from_lsb(out.c(), 23) != exp || n != __builtin_popcount((cw ^ w) >> 11)) {
                    viol("golay", "%s word %06x after other calls -> %06x count %d, want %06x", L.name, w,
                         from_lsb(out.c(), 23), n, exp);
                    return;
                }
            } else {
                uint32_t h = w & 0x7fff;
                bits_lsb(h, 15, in.c());
                int n = which == 3 ? L.f_7100x4400hamming1511(in.c(), out.c()) : L.f_hamming1511(in.c(), out.c());
                uint32_t exp = F.hnear(which == 3, h);
                if (from_lsb(out.c(), 15) != exp || n != (exp != h)) {
                    viol("hamming-after", "%s mapping %d word %04x after other calls -> %04x count %d, want %04x", L.name,
                         which == 3, h, from_lsb(out.c(), 15), n, exp);
                    return;
                }
            }
            evals(1);
        }
        CNTN("neighbouring words", 4096);
    }
    if (cx.caseno == 3) {
        sample("word 0x%06x nearest codeword 0x%06x", 0x2a5f13, F.gnear(0x2a5f13));
    }
}

// every 15-bit word, both mappings; 32 cases
MODE(hamming) {
    const Fec& F = fec();
    GBuf in(15), out(15), ing(23), outg(23);
    for (int li = 0; li < cx.nlib; li++) {
        Lib& L = cx.libs[li];
        for (uint32_t k = 0; k < 1024; k++) {
            uint32_t w = (((uint32_t)cx.caseno << 10 | k) * 2654435761u) & 0x7fff;
            for (int m = 0; m < 2; m++) {
                bits_lsb(w, 15, in.c());
                memset(out.p, 9, 15);
                int n = m ? L.f_7100x4400hamming1511(in.c(), out.c()) : L.f_hamming1511(in.c(), out.c());
                uint32_t exp = F.hnear(m, w);
                int want = exp != w;
                if (!isbits(out.c(), 15) || from_lsb(out.c(), 15) != exp || n != want) {
                    viol("hamming", "%s mapping %d word %04x -> %04x count %d, want %04x count %d", L.name, m, w,
                         from_lsb(out.c(), 15), n, exp, want);
                    return;
                }
                if (from_lsb(in.c(), 15) != w || !in.ok() || !out.ok()) {
                    viol("hamming-input", "input or guard bytes modified, word %04x", w);
                    return;
                }
                sig(F.hsyn(m, w) * 4 + (uint32_t)m * 2 + (uint32_t)n);
                evals(1);
            }
            CNTN("hamming words", 2);
        }
        uint32_t w = cx.r.u32() & 0x7fff;
        for (int k = 0; k < 4096; k++) { // neighbouring words, both mappings in any order
            w ^= cx.r.chance(0.8) ? (uint32_t)cx.r.chance(0.8) << cx.r.below(15) : cx.r.u32() & 0x7fff;
            int m = cx.r.bit();
            if (cx.r.chance(0.1)) { // a Golay word in between
                bits_lsb(w | (cx.r.u32() & 0xff) << 15, 23, ing.c());
                L.f_golay2312(ing.c(), outg.c());
            }
            bits_lsb(w, 15, in.c());
            int n = m ? L.f_7100x4400hamming1511(in.c(), out.c()) : L.f_hamming1511(in.c(), out.c());
            uint32_t exp = F.hnear(m, w);
            if (from_lsb(out.c(), 15) != exp || n != (exp != w)) {
                viol("hamming", "%s mapping %d word %04x after other calls -> %04x count %d, want %04x", L.name, m, w,
                     from_lsb(out.c(), 15), n, exp);
                return;
            }
            evals(1);
        }
        CNTN("neighbouring words", 4096);
    }
    if (cx.caseno == 1) {
        sample("word 0x%04x -> 0x%04x (std) 0x%04x (7100)", 0x1234, F.hnear(0, 0x1234), F.hnear(1, 0x1234));
    }
}

// one frame through the stages and through a process call, compared with the model
static bool one_frame(Cx& cx, Lib& L, int codec, const uint8_t* fr0, const uint8_t* know, int errs, int errs2,
                      const char* what, bool proc, St* st) {
    int n = nbits(codec), sz = frsz(codec);
    FecOut o;
    md::decode(codec, fr0, o);
    // the model itself must agree with what was encoded
    if (know && (memcmp(know, o.d, (size_t)n) || (errs >= 0 && (errs != o.errs || errs2 != o.errs2)))) {
        viol("model-self-check", "%s: reference decoder disagrees with the encoded frame", what);
        return false;
    }
    GBuf fr((size_t)sz), d((size_t)n);
    memcpy(fr.p, fr0, (size_t)sz);
    memset(d.p, 7, (size_t)n);
    int e0 = ecc_c0(L, codec, fr.c());
    if (e0 != o.errs) {
        viol("c0-count", "%s %s %s: first-word count %d, want %d", L.name, cname[codec], what, e0, o.errs);
        return false;
    }
    demod(L, codec, fr.c());
    for (int i = 0; i < sz; i++) {
        if (fr.p[i] != o.fr[i]) {
            viol("frame-after-c0", "%s %s %s: cell %d,%d is %d, want %d", L.name, cname[codec], what, i / frcols(codec),
                 i % frcols(codec), fr.p[i], o.fr[i]);
            return false;
        }
    }
    int e1 = ecc_data(L, codec, fr.c(), d.c());
    if (e1 != o.errs2 - o.errs) {
        viol("data-count", "%s %s %s: data count %d, want %d", L.name, cname[codec], what, e1, o.errs2 - o.errs);
        return false;
    }
    for (int i = 0; i < n; i++) {
        if (d.p[i] != o.d[i]) {
            viol("bits", "%s %s %s: parameter bit %d is %d, want %d (errs %d/%d)", L.name, cname[codec], what, i, d.p[i],
                 o.d[i], o.errs, o.errs2);
            return false;
        }
    }
    if (!fr.ok() || !d.ok()) {
        viol("bounds", "%s %s: write outside frame or bit array", cname[codec], what);
        return false;
    }
    evals(3);
    if (proc) {
        uint8_t want[88];
        memcpy(want, o.d, 88);
        if (codec == I71) {
            conv7100(o.d, want);
        }
        GBuf es((size_t)o.errs2 + 3 > 200 ? 400 : 200);
        float a[160];
        int ea = 77, eb = 78;
        memcpy(fr.p, fr0, (size_t)sz);
        memset(d.p, 7, (size_t)n);
        proc_frame(L, codec, false, a, &ea, &eb, es.c(), fr.c(), d.c(), &st->c, &st->p, &st->e, 3);
        if (ea != o.errs || eb != o.errs2 || memcmp(d.p, want, (size_t)n)) {
            viol("process", "%s %s %s: process call gave errs %d/%d, want %d/%d, bits %s", L.name, cname[codec], what, ea,
                 eb, o.errs, o.errs2, memcmp(d.p, want, (size_t)n) ? "differ" : "equal");
            return false;
        }
        // the 16-bit entry point on the same frame
        short sh[160];
        St s2 = *st;
        ea = eb = 70;
        memcpy(fr.p, fr0, (size_t)sz);
        memset(d.p, 7, (size_t)n);
        proc_frame(L, codec, true, sh, &ea, &eb, es.c(), fr.c(), d.c(), &s2.c, &s2.p, &s2.e, 1);
        if (ea != o.errs || eb != o.errs2 || memcmp(d.p, want, (size_t)n)) {
            viol("process16", "%s %s %s: 16-bit process call gave errs %d/%d, want %d/%d, bits %s", L.name, cname[codec],
                 what, ea, eb, o.errs, o.errs2, memcmp(d.p, want, (size_t)n) ? "differ" : "equal");
            return false;
        }
        evals(2);
    }
    const Word* W;
    words(codec, &W);
    sig(mix((uint64_t)codec, mix((uint64_t)o.errs * 64 + (uint64_t)o.errs2, hashb(fr0 + 0, 24) % 4096)));
    (void)cx;
    return true;
}

static void fec_case(Cx& cx, int codec) {
    Rng& r = cx.r;
    const Word* W;
    int nw = words(codec, &W), C = frcols(codec), n = nbits(codec);
    St st;
    Lib& L = cx.lib((int)cx.caseno);
    st_init(L, st);
    uint8_t dlast[88] = {0};
    for (int it = 0; it < 400; it++) {
        uint8_t d[88] = {0}, fr[192], base[192];
        for (int i = 0; i < n; i++) {
            d[i] = (uint8_t)r.bit();
        }
        if (it && r.chance(0.3)) { // nearly the previous frame, as in steady speech or with a stuck bit
            memcpy(d, dlast, 88);
            for (int q = r.below(3); q >= 0; q--) {
                d[r.below(n)] ^= 1;
            }
            CNT("frames close to the one before");
        }
        if (it % 16 == 1) {
            memset(d, 0, 88);
        } else if (it % 16 == 2) {
            memset(d, 1, 88);
        }
        memcpy(dlast, d, 88);
        encode(codec, d, base);
        if (it & 1) { // arbitrary padding cells
            uint8_t t[192];
            for (int i = 0; i < frsz(codec); i++) {
                t[i] = (uint8_t)r.bit();
            }
            for (int w = 0; w < nw; w++) {
                for (int j = W[w].lo; j <= W[w].hi; j++) {
                    t[W[w].row * C + j] = base[W[w].row * C + j];
                }
            }
            if (!is_imbe(codec)) {
                t[0] = base[0];
            }
            memcpy(base, t, sizeof base);
        }
        bool pr = it % 8 == 0;
        if (!one_frame(cx, L, codec, base, d, 0, 0, "clean", pr, &st)) {
            return;
        }
        CNT("clean frames");
        // (a) every word carries a random correctable pattern
        memcpy(fr, base, sizeof fr);
        int e0 = 0, e2 = 0;
        for (int w = 0; w < nw; w++) {
            int cap = (W[w].kind == 1 || W[w].kind == 4) ? 3 : W[w].kind ? 1 : 0, k = r.below(cap + 1);
            int len = W[w].hi - W[w].lo + 1, par = (W[w].kind == 1 || W[w].kind == 4) ? 11 : 4;
            uint32_t m = 0;
            for (int q = 0; q < k; q++) {
                m |= 1u << (r.below(len));
            }
            for (int j = 0; j < len; j++) {
                if (m >> j & 1) {
                    fr[W[w].row * C + W[w].lo + j] ^= 1;
                }
            }
            int c = (W[w].kind == 1 || W[w].kind == 4) ? __builtin_popcount(m >> par) : m != 0;
            if (w == 0) {
                e0 = c;
                if (!is_imbe(codec) && c == 0 && m == 0 && r.chance(0.5)) {
                    fr[0] ^= 1; // lone error in the extra parity bit
                    e0 = c = 1;
                    CNT("extra parity bit errors");
                } else if (!is_imbe(codec) && c == 0 && (__builtin_popcount(m) & 1)) {
                    e0 = c = 1; // parity-only errors in the first word flip the overall parity
                }
            }
            e2 += c;
        }
        if (!one_frame(cx, L, codec, fr, d, e0, e2, "correctable", pr, &st)) {
            return;
        }
        CNT("correctable frames");
        // (b) heavy damage / arbitrary frames
        memcpy(fr, base, sizeof fr);
        if (it % 3 == 0) {
            for (int i = 0; i < frsz(codec); i++) {
                fr[i] = (uint8_t)r.bit();
            }
        } else {
            int k = r.range(1, 40);
            for (int q = 0; q < k; q++) {
                fr[r.below(frsz(codec))] ^= 1;
            }
        }
        if (!one_frame(cx, L, codec, fr, nullptr, 0, 0, "arbitrary", pr, &st)) {
            return;
        }
        CNT("arbitrary frames");
        if (it == 7 && cx.caseno < 3) {
            FecOut o;
            md::decode(codec, fr, o);
            sample("%s arbitrary frame row0=%d%d%d%d.. errs=%d errs2=%d recovered", cname[codec], fr[3], fr[2], fr[1], fr[0],
                   o.errs, o.errs2);
        }
    }
    // (c) one word exhaustively: all correctable patterns, the rest of the frame carrying full load
    int w = (int)(cx.caseno % nw);
    if (W[w].kind) {
        uint8_t d[88] = {0}, base[192], fr[192];
        for (int i = 0; i < n; i++) {
            d[i] = (uint8_t)r.bit();
        }
        encode(codec, d, base);
        int len = W[w].hi - W[w].lo + 1, g = W[w].kind == 1 || W[w].kind == 4, par = g ? 11 : 4;
        for (int a = 0; a < len; a++) {
            for (int b = a; b < (g ? len : a + 1); b++) {
                for (int c = b; c < (g ? len : b + 1); c++) {
                    uint32_t m = 1u << a | 1u << b | 1u << c;
                    memcpy(fr, base, sizeof fr);
                    for (int j = 0; j < len; j++) {
                        if (m >> j & 1) {
                            fr[W[w].row * C + W[w].lo + j] ^= 1;
                        }
                    }
                    int k = g ? __builtin_popcount(m >> par) : 1;
                    if (!is_imbe(codec) && w == 0 && k == 0 && (__builtin_popcount(m) & 1)) {
                        k = 1;
                    }
                    if (!one_frame(cx, L, codec, fr, d, w == 0 ? k : 0, k, "single-word pattern", false, &st)) {
                        return;
                    }
                    CNT("single-word patterns");
                }
            }
        }
    }
}
MODE(fec72) { fec_case(cx, I72); }
MODE(fec71) { fec_case(cx, I71); }
MODE(fecamb) { fec_case(cx, cx.caseno & 1 ? A00 : A50); }

// descrambling: all seeds of all four frame types. cases = 64
MODE(descr) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    for (int codec = 0; codec < NCODEC; codec++) {
        int top = codec == I72 ? 22 : codec == I71 ? 18 : 23, nb = codec == I71 ? 7 : 12, C = frcols(codec), sz = frsz(codec);
        int per = (1 << nb) / 64 + 1;
        for (int k = 0; k < per; k++) {
            uint32_t seed = ((uint32_t)cx.caseno + 64u * (uint32_t)k) & ((1u << nb) - 1);
            for (int rep = 0; rep < 4; rep++) {
                uint8_t m0[192], m1[192];
                GBuf fr((size_t)sz);
                for (int i = 0; i < sz; i++) {
                    m0[i] = rep == 0 ? 0 : rep == 1 ? 1 : (uint8_t)r.bit();
                }
                for (int j = 0; j < nb; j++) {
                    m0[top - j] = (uint8_t)(seed >> (nb - 1 - j) & 1);
                }
                memcpy(m1, m0, sizeof m1);
                scramble(codec, m1);
                memcpy(fr.p, m0, (size_t)sz);
                demod(L, codec, fr.c());
                for (int i = 0; i < sz; i++) {
                    if (fr.p[i] != m1[i]) {
                        viol("descramble", "%s %s seed %u: cell %d,%d is %d, want %d", L.name, cname[codec], seed, i / C, i % C,
                             fr.p[i], m1[i]);
                        return;
                    }
                }
                demod(L, codec, fr.c());
                if (memcmp(fr.p, m0, (size_t)sz)) {
                    viol("involution", "%s seed %u: descrambling twice does not restore the frame", cname[codec], seed);
                    return;
                }
                if (!fr.ok()) {
                    viol("descramble-bounds", "%s seed %u: write outside the frame", cname[codec], seed);
                    return;
                }
                evals(2);
            }
            sig((uint64_t)codec << 16 | seed);
            CNT("codec/seed pairs");
        }
    }
    // streams of related frames: keys that stay, differ in single bits or belong to another frame type
    uint32_t key = r.u32() & 4095;
    for (int k = 0; k < 3000; k++) {
        if (r.chance(0.7)) {
            key ^= 1u << r.below(12);
        } else if (r.chance(0.5)) {
            key = r.u32() & 4095;
        }
        int codec = r.chance(0.7) ? (int)(cx.caseno & 3) : r.below(NCODEC);
        int top = codec == I72 ? 22 : codec == I71 ? 18 : 23, nb = codec == I71 ? 7 : 12, C = frcols(codec), sz = frsz(codec);
        uint8_t m0[192], m1[192];
        GBuf fr((size_t)sz);
        for (int i = 0; i < sz; i++) {
            m0[i] = (uint8_t)r.bit();
        }
        for (int j = 0; j < nb; j++) {
            m0[top - j] = (uint8_t)(key >> (11 - j) & 1);
        }
        memcpy(m1, m0, sizeof m1);
        scramble(codec, m1);
        memcpy(fr.p, m0, (size_t)sz);
        demod(L, codec, fr.c());
        for (int i = 0; i < sz; i++) {
            if (fr.p[i] != m1[i]) {
                viol("descramble", "%s %s key %03x after another frame: cell %d,%d is %d, want %d", L.name, cname[codec], key, i / C,
                     i % C, fr.p[i], m1[i]);
                return;
            }
        }
        if (!fr.ok()) {
            viol("descramble-bounds", "%s key %03x: write outside the frame", cname[codec], key);
            return;
        }
        CNT("related frames in a row");
        evals(1);
    }
    if (cx.caseno == 5) {
        sample("seed 5 of each codec: full cell-by-cell comparison, twice = identity");
    }
}

// layout conversion: 256 cases = pitch values
MODE(conv7100) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    int b0 = (int)(cx.caseno & 255);
    static const int pos[8] = {1, 2, 3, 4, 5, 6, 86, 87};
    int where[88];
    memset(where, -1, sizeof where);
    // bit tracing: the output position of every input bit, for this pitch
    uint8_t base[88] = {0}, out0[88];
    for (int i = 0; i < 8; i++) {
        base[pos[i]] = (uint8_t)(b0 >> (7 - i) & 1);
    }
    GBuf d(88);
    memcpy(d.p, base, 88);
    L.f_convertImbe7100to7200(d.c());
    memcpy(out0, d.p, 88);
    int used[88] = {0};
    for (int i = 0; i < 88; i++) {
        bool pitch = false;
        for (int q : pos) {
            pitch |= q == i;
        }
        if (pitch) {
            continue;
        }
        memcpy(d.p, base, 88);
        d.p[i] ^= 1;
        L.f_convertImbe7100to7200(d.c());
        int hits = 0;
        for (int k = 0; k < 88; k++) {
            if (d.p[k] != out0[k]) {
                hits++;
                where[i] = k;
            }
        }
        if (hits != 1) {
            viol("not-a-permutation", "pitch %d: input bit %d affects %d output bits", b0, i, hits);
            return;
        }
        if (used[where[i]]++) {
            viol("not-a-permutation", "pitch %d: output bit %d receives two input bits", b0, where[i]);
            return;
        }
        evals(1);
    }
    int src[88];
    map7100(b0, src);
    for (int i = 0; i < 88; i++) {
        if (where[src[i]] != -1 && where[src[i]] != i) {
            viol("wrong-position", "pitch %d: input bit %d lands at %d, want %d", b0, src[i], where[src[i]], i);
            return;
        }
    }
    int reps = !strcmp(g_tier, "thorough") ? 20000 : 400;
    uint8_t inlast[88] = {0};
    for (int k = 0; k < reps; k++) {
        uint8_t in[88], want[88];
        for (int i = 0; i < 88; i++) {
            in[i] = (uint8_t)r.bit();
        }
        for (int i = 0; i < 8; i++) {
            in[pos[i]] = base[pos[i]];
        }
        if (k && r.chance(0.3)) { // nearly the vector before
            memcpy(in, inlast, 88);
            in[r.below(88)] ^= 1;
            for (int i = 0; i < 8; i++) {
                in[pos[i]] = base[pos[i]];
            }
        }
        memcpy(inlast, in, 88);
        if (r.chance(0.3)) { // a vector of a neighbouring pitch in between
            uint8_t o[88], ow[88];
            memcpy(o, in, 88);
            int ob = r.bit() ? b0 + r.range(-3, 3) : r.bit() ? b0 ^ 1 << r.below(8) : r.below(256);
            for (int i = 0; i < 8; i++) {
                o[pos[i]] = (uint8_t)(ob >> (7 - i) & 1);
            }
            if (r.bit()) {
                o[r.below(88)] ^= 1;
            }
            conv7100(o, ow);
            memcpy(d.p, o, 88);
            L.f_convertImbe7100to7200(d.c());
            if (memcmp(d.p, ow, 88)) {
                viol("conversion", "pitch near %d: conversion after other vectors is wrong", b0);
                return;
            }
            CNT("neighbouring pitches in a row");
            evals(1);
        }
        conv7100(in, want);
        memcpy(d.p, in, 88);
        L.f_convertImbe7100to7200(d.c());
        if (memcmp(d.p, want, 88) || !d.ok()) {
            int i = 0;
            while (i < 87 && d.p[i] == want[i]) {
                i++;
            }
            viol("conversion", "pitch %d: output bit %d is %d, want %d", b0, i, d.p[i], want[i]);
            return;
        }
        if (imbe_b0(d.p) != b0) {
            viol("pitch-field", "pitch %d became %d", b0, imbe_b0(d.p));
            return;
        }
        sig(mix((uint64_t)b0, hashb(in, 88)));
        evals(1);
    }
    CNT("pitch values");
    // decoding the converted vector gives the transmitted fields
    if (b0 < 208) {
        for (int k = 0; k < 40; k++) {
            uint8_t in[88];
            for (int i = 0; i < 88; i++) {
                in[i] = (uint8_t)r.bit();
            }
            for (int i = 0; i < 8; i++) {
                in[pos[i]] = base[pos[i]];
            }
            int Lh = imbe_L(b0), K = imbe_K(Lh);
            memcpy(d.p, in, 88);
            L.f_convertImbe7100to7200(d.c());
            St s;
            st_init(L, s);
            int bad = L.f_decodeImbe4400Parms(d.c(), &s.c, &s.p);
            if (bad || s.c.L != Lh || s.c.K != K) {
                viol("decoded-shape", "pitch %d decodes to ret %d L %d K %d, want 0 %d %d", b0, bad, s.c.L, s.c.K, Lh, K);
                return;
            }
            for (int l = 1; l <= Lh; l++) {
                int band = (l - 1) / 3;
                if (band > K - 1) {
                    band = K - 1;
                }
                // voicing field of the 7100 layout: 44.. , most significant band first
                if (s.c.Vl[l] != in[44 + band]) {
                    viol("decoded-voicing", "pitch %d harmonic %d voiced %d, transmitted %d", b0, l, s.c.Vl[l], in[44 + band]);
                    return;
                }
            }
            evals(1);
        }
    }
    if (b0 == 77) {
        sample("pitch 77: input bit 20 -> output %d, input bit 44 -> output %d", where[20], where[44]);
    }
}
