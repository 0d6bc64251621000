// Scripts: a stream as a fixed sequence of library calls (atoms) that can be replayed anywhere and compared bit for bit.
#pragma once
#include "gen.h"

enum AKind { A_PROC, A_C0, A_DEMOD, A_DATA, A_DEC, A_MOVE, A_ENH, A_SYN, A_MOVE2, A_TONE, A_DSTAR, A_CN, A_SIL, A_SMOOTH, A_LAST, A_INIT,
             A_PRED, A_MISC };
struct Atom {
    int kind;
    bool sh;
    int arg;
    Step s;
};
enum { MAXATOM = 160 };
struct Script {
    int n;
    Atom a[MAXATOM];
};
struct Stream {
    St* st;
    uint8_t fr[192];
    uint8_t d[88];
    int ret;
};
struct Tr {
    uint64_t st, au, tx;
    int cn, spoke;
    float le;
};

// pstage: share of frames done stage by stage; mixed: several codecs on one stream
static inline void script_gen(Rng& r, Script& S, int n, double pstage, bool mixed, int codec, double pother = 0.15) {
    S.n = 0;
    DGen g0(0), g1(1), g2(2), g3(3);
    DGen* g[4] = {&g0, &g1, &g2, &g3};
    auto add = [&](int k, const Step* s = nullptr, int arg = 0) {
        if (S.n < MAXATOM) {
            Atom& a = S.a[S.n++];
            memset(&a, 0, sizeof a);
            a.kind = k;
            a.sh = r.chance(0.3);
            a.arg = arg;
            if (s) {
                a.s = *s;
            }
        }
    };
    int prof = VOICE, level = 0, left = 0;
    add(A_INIT);
    while (S.n < n) {
        if (mixed && r.chance(0.1)) {
            codec = r.below(4);
        }
        if (left-- <= 0) {
            left = r.range(1, 7);
            prof = g[codec]->pick_prof(r);
            static const int lv[] = {0, 0, 0, 1, 2, 3, 4, 5, 5};
            level = lv[r.below(9)];
        }
        Step s;
        bool staged = r.chance(pstage);
        step_gen(r, *g[codec], codec, staged || r.bit(), prof, level, s);
        if (staged) {
            add(A_C0, &s);
            add(A_DEMOD, &s);
            add(A_DATA, &s);
            add(A_DEC, &s);
            add(A_MOVE, &s);
            add(A_ENH, &s);
            add(A_SYN, &s);
            add(A_MOVE2, &s);
        } else {
            add(A_PROC, &s);
        }
        if (r.chance(pother)) {
            switch (r.below(9)) {
                case 8: add(A_MISC, &s, r.below(1 << 23)); break;
                case 0: add(A_CN); break;
                case 1: add(A_SIL); break;
                case 2:
                    g2.next(r, SPECIAL, s.d);
                    add(A_TONE, &s);
                    break;
                case 3:
                    g3.next(r, SPECIAL, s.d);
                    add(A_DSTAR, &s, r.range(0, 140));
                    break;
                case 4: add(A_SMOOTH); break;
                case 5: add(A_LAST); break;
                case 6: add(A_PRED); break;
                default:
                    if (r.chance(0.3)) {
                        add(A_INIT);
                    }
            }
        }
    }
}

// shadow != null: a block equal to the generator's next output is classified as comfort noise
static inline bool is_cn(Comfort* sh, const float* a, const short* s) {
    Comfort t = *sh;
    for (int i = 0; i < 160; i++) {
        double v = t.next();
        if (a ? !(fabs(a[i] - v) < 1e-3) : !(fabs(s[i] - v * 7) < 2)) {
            return false;
        }
    }
    *sh = t;
    return true;
}
static inline void run_atom(Lib& L, Stream& x, const Atom& A, Comfort* shadow, Tr& t, CallRes& o, bool want_state = true) {
    memset(&t, 0, sizeof t);
    memset(o.a, 0, sizeof o.a);
    memset(o.sh, 0, sizeof o.sh);
    St& S = *x.st;
    bool audio = false, sh = A.sh;
    switch (A.kind) {
        case A_PROC:
            do_step(L, A.s, sh, S, o);
            audio = true;
            t.tx = hashb(o.str, strnlen(o.str, sizeof o.str)) ^ mix((uint64_t)o.errs, (uint64_t)o.errs2) ^ hashb(o.d, sizeof o.d);
            break;
        case A_C0:
            memcpy(x.fr, A.s.fr, sizeof x.fr);
            t.tx = (uint64_t)ecc_c0(L, A.s.codec, (char*)x.fr) + 1;
            break;
        case A_DEMOD: demod(L, A.s.codec, (char*)x.fr); break;
        case A_DATA:
            t.tx = (uint64_t)ecc_data(L, A.s.codec, (char*)x.fr, (char*)x.d) + 1;
            if (A.s.codec == I71) {
                L.f_convertImbe7100to7200((char*)x.d);
            }
            t.tx ^= hashb(x.d, (size_t)nbits(A.s.codec));
            break;
        case A_DEC:
            x.ret = dec_parms(L, A.s.codec, (const char*)x.d, &S.c, &S.p);
            t.tx = (uint64_t)x.ret + 1;
            break;
        case A_MOVE:
            if (x.ret == 0) {
                L.f_moveMbeParms(&S.c, &S.p);
            }
            break;
        case A_ENH:
            if (x.ret == 0) {
                L.f_spectralAmpEnhance(&S.c);
            }
            break;
        case A_SYN:
            if (x.ret == 0) {
                sh ? L.f_synthesizeSpeech(o.sh, &S.c, &S.e, 3) : L.f_synthesizeSpeechf(o.a, &S.c, &S.e, 3);
                audio = true;
            }
            break;
        case A_MOVE2:
            if (x.ret == 0) {
                L.f_moveMbeParms(&S.c, &S.e);
            }
            break;
        case A_TONE:
            L.f_synthesizeTonef(o.a, (const char*)A.s.d, &S.c);
            audio = true;
            sh = false;
            break;
        case A_DSTAR:
            L.f_synthesizeTonefdstar(o.a, (const char*)A.s.d, &S.c, A.arg);
            audio = true;
            sh = false;
            break;
        case A_CN:
            sh ? L.f_synthesizeComfortNoise(o.sh) : L.f_synthesizeComfortNoisef(o.a);
            audio = true;
            break;
        case A_SIL:
            sh ? L.f_synthesizeSilence(o.sh) : L.f_synthesizeSilencef(o.a);
            audio = true;
            break;
        case A_SMOOTH: L.f_applyAdaptiveSmoothing(&S.c, &S.e); break;
        case A_LAST: L.f_useLastMbeParms(&S.c, &S.p); break;
        case A_INIT:
            L.f_initMbeParms(&S.c, &S.p, &S.e);
            x.ret = 1;
            break;
        case A_MISC: { // everything that has no state
            char v[32], in[24], out[24];
            memset(v, 0, sizeof v);
            L.f_printVersion(v);
            uint64_t h = hashb(v, strnlen(v, sizeof v)) ^ mix(hashb(L.f_versionString(), strlen(L.f_versionString())), 1);
            for (int i = 0; i < 23; i++) {
                in[i] = (char)(A.arg >> i & 1);
            }
            in[23] = 0;
            memset(out, 0, sizeof out);
            h = mix(h, (uint64_t)L.f_golay2312(in, out)) ^ hashb(out, 23);
            memset(out, 0, sizeof out);
            h = mix(h, (uint64_t)L.f_hamming1511(in, out)) ^ hashb(out, 15);
            memset(out, 0, sizeof out);
            h = mix(h, (uint64_t)L.f_7100x4400hamming1511(in, out)) ^ hashb(out, 15);
            long b = A.arg;
            L.f_checkGolayBlock(&b);
            h = mix(h, (uint64_t)b);
            memcpy(x.d, A.s.d, sizeof x.d);
            L.f_convertImbe7100to7200((char*)x.d);
            h = mix(h, hashb(x.d, 88));
            uint32_t q = (uint32_t)A.arg * 2654435761u + 1;
            for (float& f : o.a) {
                q = q * 1664525u + 1013904223u;
                f = (float)((int)q >> 8) / 700.0f;
            }
            L.f_floattoshort(o.a, o.sh);
            t.tx = mix(h, hashb(o.sh, sizeof o.sh));
            break;
        }
        case A_PRED:
            t.tx = (uint64_t)(L.f_requiresMuting(&S.c) + 2 * L.f_isMaxFrameRepeat(&S.c) + 4 * L.f_requiresAdaptiveSmoothing(&S.c)) + 1;
            break;
    }
    t.spoke = audio;
    if (audio) {
        if (shadow && is_cn(shadow, sh ? nullptr : o.a, sh ? o.sh : nullptr)) {
            t.cn = 1;
        } else {
            t.au = hashb(o.a, sizeof o.a) ^ (hashb(o.sh, sizeof o.sh) << 1);
        }
    }
    t.le = S.c.localEnergy;
    if (want_state) {
        t.st = hash_st(S);
    }
}
static inline const char* akind_name(int k) {
    static const char* n[] = {"process", "C0", "demodulate", "data", "decode", "move", "enhance", "synthesize", "move2", "tone",
                              "dstar tone", "comfort noise", "silence", "smoothing", "use-last", "init", "predicates", "stateless calls"};
    return n[k];
}
// returns index of first difference or -1
static inline int tr_diff(const Tr* a, const Tr* b, int n, const char** what) {
    for (int i = 0; i < n; i++) {
        if (a[i].cn != b[i].cn) {
            *what = "comfort noise or not";
        } else if (a[i].au != b[i].au) {
            *what = "audio";
        } else if (a[i].tx != b[i].tx) {
            *what = "counts, bits or text";
        } else if (a[i].st != b[i].st) {
            *what = "state";
        } else {
            continue;
        }
        return i;
    }
    return -1;
}
