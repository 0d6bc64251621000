// P01: memory safety, initialisedness, undefined behaviour, termination. The sanitizer runtime is the oracle;
// buffers are heap blocks of exactly the documented size, so that one byte too far is seen.
#include "gen.h"

static void init_check(const void* p, size_t n, const char* what) {
#ifdef HX_MSAN
    long off = (long)__msan_test_shadow(p, n);
    if (off >= 0) {
        viol("uninitialised-output", "%s: byte %ld of %zu is uninitialised", what, off, n);
    }
#else
    (void)p;
    (void)n;
    (void)what;
#endif
}
struct Quiet { // the dump calls write to stderr
    int fd;
    Quiet() {
        fflush(stderr);
        fd = dup(2);
        int z = open("/dev/null", O_WRONLY);
        dup2(z, 2);
        close(z);
    }
    ~Quiet() {
        fflush(stderr);
        dup2(fd, 2);
        close(fd);
    }
};

static const char* codec_name[4] = {"IMBE 7200", "IMBE 7100", "AMBE 2450", "AMBE 2400"};
struct Pool {
    mbe_parms* m[6];
    Pool() {
        for (auto& x : m) {
            x = (mbe_parms*)malloc(sizeof(mbe_parms));
        }
    }
    ~Pool() {
        for (auto x : m) {
            free(x);
        }
    }
};

static void check_models(Pool& P, const char* what) {
    for (auto x : P.m) {
        init_check(x, sizeof *x, what);
    }
}

// one whole call with exact buffers
static void whole_call(Lib& L, Rng& r, const Step& s, mbe_parms* c, mbe_parms* p, mbe_parms* e) {
    bool sh = r.bit();
    int nb = nbits(s.codec);
    GBuf a(sh ? 320 : 640), er(4), er2(4), str((size_t)s.errs2 + 3), fr((size_t)frsz(s.codec)), d((size_t)nb);
    if (s.frame) {
        memcpy(fr.p, s.fr, fr.n);
        proc_frame(L, s.codec, sh, a.p, er.i(), er2.i(), str.c(), fr.c(), d.c(), c, p, e, r.range(-3, 100));
        init_check(d.p, d.n, "recovered bits");
        init_check(fr.p, fr.n, "frame buffer");
        init_check(er.p, 4, "errs");
        init_check(er2.p, 4, "errs2");
    } else {
        memcpy(d.p, s.d, d.n);
        *er.i() = s.errs;
        *er2.i() = s.errs2;
        proc_data(L, s.codec, sh, a.p, er.i(), er2.i(), str.c(), d.c(), c, p, e, r.range(-3, 100));
    }
    init_check(a.p, a.n, "audio");
    init_check(str.p, 1, "status text");
    if (!str.ok() || !a.ok() || !fr.ok() || !d.ok() || !er.ok() || !er2.ok()) {
        viol("guard", "%s: %s %s call wrote outside a buffer", L.name, codec_name[s.codec], s.frame ? "frame" : "data");
    }
    CNT("process calls");
    evals(1);
    sig(mix(hashb(str.p, strnlen(str.c(), str.n)), (uint64_t)(s.codec * 1000 + c->L * 10 + p->repeatCount)) ^ hashb(a.p, a.n));
}

MODE(mem) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    Pool P;
    L.f_initMbeParms(P.m[0], P.m[1], P.m[2]);
    L.f_initMbeParms(P.m[3], P.m[4], P.m[5]);
    if (r.bit()) {
        L.f_setThreadRngSeed(r.u32());
    }
    DGen* g[4];
    DGen g0(0), g1(1), g2(2), g3(3);
    g[0] = &g0, g[1] = &g1, g[2] = &g2, g[3] = &g3;
    int codec = r.below(4);
    int style = r.below(4); // 0 one codec whole calls, 1 mixed codecs, 2 stages and pools, 3 everything
    int n = 60;
    for (int k = 0; k < n; k++) {
        if (style != 0 && r.chance(0.2)) {
            codec = r.below(4);
        }
        DGen& G = *g[codec];
        int act = style < 2 ? 0 : r.below(22);
        int x = r.below(6), y = r.below(6), z = r.below(6);
        switch (act) {
            case 0:
            case 1:
            case 2:
            case 3:
            case 4: {
                Step s;
                int lv = r.below(6);
                step_gen(r, G, codec, r.bit(), G.pick_prof(r), lv, s);
                if (!s.frame && r.chance(0.1)) {
                    s.errs2 = r.chance(0.3) ? 0 : r.chance(0.005) ? r.range(7000000, 8000000) : r.range(0, 3000);
                    s.errs = r.range(-5, 3000);
                }
                if (style == 3 && r.chance(0.3)) { // three unrelated library-made states
                    while (y == x) {
                        y = r.below(6);
                    }
                    while (z == x || z == y) {
                        z = r.below(6);
                    }
                    whole_call(L, r, s, P.m[x], P.m[y], P.m[z]);
                    CNT("calls on states taken from different streams");
                } else {
                    int b = style == 3 && r.bit() ? 3 : 0;
                    whole_call(L, r, s, P.m[b], P.m[b + 1], P.m[b + 2]);
                }
                break;
            }
            case 5: { // stages on a raw or valid frame
                uint8_t d8[88];
                uint8_t f8[192];
                G.next(r, G.pick_prof(r), d8);
                make_frame(codec, d8, f8, r, r.below(6));
                GBuf fr((size_t)frsz(codec)), d((size_t)nbits(codec));
                memcpy(fr.p, f8, fr.n);
                if (r.chance(0.9)) {
                    ecc_c0(L, codec, fr.c());
                }
                if (r.chance(0.9)) {
                    demod(L, codec, fr.c());
                }
                ecc_data(L, codec, fr.c(), d.c());
                init_check(d.p, d.n, "stage bits");
                init_check(fr.p, fr.n, "stage frame");
                if (codec == I71 && r.chance(0.9)) {
                    L.f_convertImbe7100to7200(d.c());
                    init_check(d.p, d.n, "converted bits");
                }
                if (x == y) {
                    y = (x + 1) % 6;
                }
                int ret = dec_parms(L, codec, d.c(), P.m[x], P.m[y]);
                sig(mix((uint64_t)ret, hashb(P.m[x]->Ml, sizeof P.m[x]->Ml)));
                CNT("stage sequences");
                evals(1);
                break;
            }
            case 6:
            case 7: {
                uint8_t d8[88];
                G.next(r, G.pick_prof(r), d8);
                GBuf d((size_t)nbits(codec));
                memcpy(d.p, d8, d.n);
                if (x == y) {
                    y = (x + 1) % 6;
                }
                int ret = dec_parms(L, codec, d.c(), P.m[x], P.m[y]);
                sig(mix((uint64_t)ret, hashb(P.m[x]->Ml, sizeof P.m[x]->Ml)));
                CNT("parameter decodes");
                evals(1);
                break;
            }
            case 8:
            case 9: {
                bool sh = r.bit();
                GBuf a(sh ? 320 : 640);
                if (x == y) {
                    y = (x + 1) % 6;
                }
                sh ? L.f_synthesizeSpeech(a.s(), P.m[x], P.m[y], r.range(-3, 99)) : L.f_synthesizeSpeechf(a.f(), P.m[x], P.m[y], r.range(-3, 99));
                init_check(a.p, a.n, "speech");
                CNT("direct synthesis calls");
                evals(1);
                break;
            }
            case 10: {
                GBuf a(640), d(49);
                uint8_t d8[88];
                int c2 = r.bit() ? A50 : A00;
                g[c2]->next(r, SPECIAL, d8);
                memcpy(d.p, d8, 49);
                if (r.bit()) {
                    L.f_synthesizeTonef(a.f(), d.c(), P.m[x]);
                } else {
                    static const int odd[] = {0, -1, 255, 256, 127, 128, 163, 164, 4, 5, 122, 123, 2147483647, -2147483647 - 1};
                    L.f_synthesizeTonefdstar(a.f(), d.c(), P.m[x], r.bit() ? r.range(-10, 300) : odd[r.below(14)]);
                }
                init_check(a.p, a.n, "tone");
                CNT("tone calls");
                evals(1);
                break;
            }
            case 11: {
                GBuf a(640), b(320);
                if (r.bit()) {
                    L.f_synthesizeSilencef(a.f());
                    L.f_synthesizeSilence(b.s());
                } else {
                    L.f_synthesizeComfortNoisef(a.f());
                    L.f_synthesizeComfortNoise(b.s());
                }
                init_check(a.p, a.n, "noise");
                init_check(b.p, b.n, "noise");
                evals(1);
                break;
            }
            case 12: {
                GBuf a(640), b(320);
                for (int i = 0; i < 160; i++) {
                    uint32_t u = r.bit() ? r.u32() : (uint32_t)(r.range(0x46f00000, 0x47900000)) | (uint32_t)r.bit() << 31;
                    memcpy(a.p + 4 * i, &u, 4);
                    float v = a.f()[i];
                    if (v != v) {
                        a.f()[i] = r.bit() ? INFINITY : -INFINITY;
                    }
                }
                L.f_floattoshort(a.f(), b.s());
                init_check(b.p, b.n, "16-bit samples");
                evals(1);
                break;
            }
            case 13: L.f_spectralAmpEnhance(P.m[x]); evals(1); break;
            case 14:
                if (x == y) {
                    y = (x + 1) % 6;
                }
                L.f_applyAdaptiveSmoothing(P.m[x], P.m[y]);
                evals(1);
                break;
            case 15:
                r.bit() ? L.f_moveMbeParms(P.m[x], P.m[y]) : L.f_useLastMbeParms(P.m[x], P.m[y]);
                evals(1);
                break;
            case 16:
                if (r.chance(0.3)) {
                    int b = r.bit() * 3;
                    L.f_initMbeParms(P.m[b], P.m[b + 1], P.m[b + 2]);
                    CNT("initialisations");
                }
                break;
            case 17: {
                GBuf i1(23), o1(23), i2(15), o2(15), o3(15), blk(sizeof(long));
                for (int i = 0; i < 23; i++) {
                    i1.p[i] = (uint8_t)r.bit();
                }
                for (int i = 0; i < 15; i++) {
                    i2.p[i] = (uint8_t)r.bit();
                }
                L.f_golay2312(i1.c(), o1.c());
                L.f_hamming1511(i2.c(), o2.c());
                L.f_7100x4400hamming1511(i2.c(), o3.c());
                init_check(o1.p, 23, "golay output");
                init_check(o2.p, 15, "hamming output");
                init_check(o3.p, 15, "hamming output");
                long v = (long)r.u64();
                memcpy(blk.p, &v, sizeof v);
                L.f_checkGolayBlock((long*)blk.p);
                evals(4);
                break;
            }
            case 18: {
                Quiet q;
                GBuf d(88), f72(184), f71(168);
                for (int i = 0; i < 184; i++) {
                    f72.p[i] = (uint8_t)r.bit();
                    if (i < 168) {
                        f71.p[i] = (uint8_t)r.bit();
                    }
                    if (i < 88) {
                        d.p[i] = (uint8_t)r.bit();
                    }
                }
                L.f_dumpImbe4400Data(d.c());
                L.f_dumpImbe7200x4400Data(d.c());
                L.f_dumpImbe7100x4400Data(d.c());
                L.f_dumpImbe7200x4400Frame((const char(*)[23])f72.p);
                L.f_dumpImbe7100x4400Frame((const char(*)[24])f71.p);
                CNT("dumps");
                evals(5);
                break;
            }
            case 19: {
                GBuf s(32);
                L.f_printVersion(s.c());
                init_check(s.p, strnlen(s.c(), 32), "version");
                (void)L.f_versionString();
                evals(1);
                break;
            }
            case 20:
                (void)(L.f_requiresMuting(P.m[x]) + L.f_isMaxFrameRepeat(P.m[x]) + L.f_requiresAdaptiveSmoothing(P.m[x]));
                evals(1);
                break;
            case 21: L.f_setThreadRngSeed(r.bit() ? r.u32() : 0); break;
        }
        check_models(P, "decoder state");
    }
}

// every (previous pitch, current pitch) pair of every codec: the spectral predictor's index arithmetic
MODE(mempairs) {
    Rng& r = cx.r;
    static const int tot = 208 + 208 + 120 + 126;
    for (int li = 0; li < cx.nlib; li++) {
        Lib& L = cx.lib(li);
        long i = cx.caseno % tot;
        int codec = i < 208 ? I72 : i < 416 ? I71 : i < 536 ? A50 : A00;
        int pb = (int)(i < 208 ? i : i < 416 ? i - 208 : i < 536 ? i - 416 : i - 536);
        Pool P;
        L.f_initMbeParms(P.m[3], P.m[4], P.m[5]);
        DGen g(codec);
        for (int b = 0; b < voice_b0s(codec); b++) {
            L.f_initMbeParms(P.m[0], P.m[1], P.m[2]);
            for (int q = 0; q < 2; q++) {
                Step s;
                memset(&s, 0, sizeof s);
                s.codec = codec;
                s.uv = 3;
                g.uni(r, s.d);
                set_b0(codec, s.d, q ? b : pb);
                if (r.chance(0.3)) {
                    set_gain(codec, s.d, r.bit() ? 63 : 0);
                }
                if (codec == I71) {
                    uint8_t t[88];
                    s.frame = true;
                    inv7100(s.d, t);
                    encode(codec, t, s.fr);
                    FecOut o;
                    fec_expect(codec, s.fr, o);
                    s.errs2 = o.errs2;
                }
                whole_call(L, r, s, P.m[0], P.m[1], P.m[2]);
            }
        }
        check_models(P, "decoder state");
        CNTN("pitch pairs", voice_b0s(codec));
    }
}
