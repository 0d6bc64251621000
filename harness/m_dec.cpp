// P10-P12: parameter decoding against the reference model, from arbitrary previous states.
#include "gen.h"

static void rand_prev(Rng& r, mbe_parms& p, int profile) {
    memset(&p, 0, sizeof p);
    p.w0 = (float)r.uni(0.05, 0.31);
    p.L = r.range(9, 56);
    p.K = r.range(3, 12);
    double amp = profile == 0 ? 0 : profile == 1 ? 4 : profile == 2 ? 15 : 60;
    double off = profile == 0 ? 0 : r.uni(-amp, amp);
    for (int l = 0; l <= 56; l++) {
        p.Vl[l] = r.bit();
        p.log2Ml[l] = (float)(off + r.uni(-amp, amp));
        p.Ml[l] = exp2f(p.log2Ml[l]);
        p.PHIl[l] = (float)r.uni(-3, 3);
        p.PSIl[l] = (float)r.uni(0, 6);
    }
    p.log2Ml[0] = (float)r.uni(-amp, amp);
    p.gamma = (float)r.uni(-1, 10);
    p.repeat = r.below(5);
    p.repeatCount = r.below(5);
    p.un = (int)r.u32();
    p.swn = (int)r.u32();
    p.localEnergy = (float)r.uni(1e4, 1e6);
    p.amplitudeThreshold = r.range(0, 50000);
    p.errorRate = (float)r.uni(0, 0.2);
    p.errorCountTotal = r.below(20);
    p.errorCount4 = r.below(2);
    p.mutingThreshold = 0.1f;
    for (float& x : p.previousUw) {
        x = (float)r.uni(-100, 100);
    }
    p.noiseSeed = (float)r.below(53125);
    for (float& x : p.noiseOverlap) {
        x = (float)r.below(53125);
    }
}

static void dec_case(Cx& cx, int codec) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    int n = nbits(codec);
    bool slow = !strncmp(L.name, "asan", 4) || !strcmp(L.name, "dbg");
    int iters = slow ? 400 : 4000;
    DGen g(codec);
    GBuf bd((size_t)n), bc(sizeof(mbe_parms)), bp(sizeof(mbe_parms));
    mbe_parms last;
    bool chain = false;
    uint8_t dlast[88] = {0};
    for (int it = 0; it < iters; it++) {
        uint8_t d[88] = {0};
        mbe_parms prev, cur;
        rand_prev(r, prev, r.below(8) == 0 ? 3 : r.below(3));
        if (chain && r.chance(0.5)) {
            prev = last; // continue from a state the library itself decoded
        }
        rand_prev(r, cur, 1);
        if (r.chance(0.5)) {
            g.next(r, g.pick_prof(r), d);
        } else {
            for (int i = 0; i < n; i++) {
                d[i] = (uint8_t)r.bit();
            }
            if (r.chance(0.8)) {
                set_b0(codec, d, (int)((cx.caseno * 131 + it) % voice_b0s(codec)));
            }
        }
        if (it && r.chance(0.25)) { // nearly the previous vector: steady speech, a stuck bit
            memcpy(d, dlast, sizeof d);
            for (int q = r.below(4); q > 0; q--) {
                d[r.below(n)] ^= 1;
            }
            CNT("vectors close to the one before");
        }
        memcpy(dlast, d, sizeof d);
        if (r.chance(0.05)) { // another codec's frame in between
            uint8_t x[88];
            for (uint8_t& b : x) {
                b = (uint8_t)r.bit();
            }
            mbe_parms xc = cur, xp = prev;
            dec_parms(L, r.below(NCODEC), (char*)x, &xc, &xp);
        }
        Dec o;

        cur.errorCountTotal = r.below(8);
        if (codec == A50) {
            dec_2450(d, prev, 0, o); // the parameter-level call has no error gate
        } else if (codec == A00) {
            dec_2400(d, prev, o);
        } else {
            dec_imbe(d, prev, o);
        }
        memcpy(bd.p, d, (size_t)n);
        memcpy(bc.p, &cur, sizeof cur);
        memcpy(bp.p, &prev, sizeof prev);
        int ret = dec_parms(L, codec, bd.c(), bc.m(), bp.m());
        mbe_parms& C = *bc.m();
        mbe_parms& P = *bp.m();
        const char* nm = L.name;
        evals(1);
#define BAD(key, ...)                                                                                          \
    do {                                                                                                       \
        char t_[300];                                                                                          \
        snprintf(t_, sizeof t_, __VA_ARGS__);                                                                  \
        viol(key, "%s %s pitch %d (prev L %d): %s", nm, cname[codec], get_b0(codec, d), prev.L, t_);           \
        return;                                                                                                \
    } while (0)
        if (codec == A00 ? (ret != o.ret) : (ret != o.ret)) {
            BAD("class", "classified %d, want %d", ret, o.ret);
        }
        if (memcmp(bd.p, d, (size_t)n)) {
            BAD("input", "parameter bits were modified");
        }
        if (!bd.ok() || !bc.ok() || !bp.ok()) {
            BAD("bounds", "write outside a structure");
        }
        if (C.repeat != prev.repeat) {
            BAD("repeat", "repeat flag %d, want previous %d", C.repeat, prev.repeat);
        }
        mbe_parms want = cur; // build the complete expected current state
        want.repeat = prev.repeat;
        if (o.set_model) {
            want.w0 = (float)o.w0;
            want.L = o.L;
            for (int l = 1; l <= o.L; l++) {
                want.Vl[l] = 0;
            }
            if (!feq(C.w0, o.w0, 1e-6, 0)) {
                BAD("w0", "w0 %.9g, want %.9g", C.w0, o.w0);
            }
            want.w0 = C.w0;
        }
        if (o.model) {
            if (C.L != o.L) {
                BAD("L", "L %d, want %d", C.L, o.L);
            }
            if (!feq(C.w0, o.w0, 2e-6, 0)) {
                BAD("w0", "w0 %.9g, want %.9g", C.w0, o.w0);
            }
            if (is_imbe(codec)) {
                if (C.K != o.K) {
                    BAD("K", "K %d, want %d", C.K, o.K);
                }
                want.K = o.K;
            } else {
                if (!feq(C.gamma, o.gamma, 2e-6, 1e-6)) {
                    BAD("gain", "gamma %.9g, want %.9g", C.gamma, o.gamma);
                }
                want.gamma = C.gamma;
            }
            for (int l = 1; l <= o.L; l++) {
                if (!o.Vamb[l] && C.Vl[l] != o.V[l]) {
                    BAD("voicing", "harmonic %d voiced %d, want %d", l, C.Vl[l], o.V[l]);
                }
                if (C.Vl[l] != 0 && C.Vl[l] != 1) {
                    BAD("voicing", "harmonic %d voiced flag %d", l, C.Vl[l]);
                }
                if (!feq(C.log2Ml[l], o.lg[l], 2e-6, o.lgtol)) {
                    BAD("log-amplitude", "log2Ml[%d] %.7g, want %.7g (tolerance %.2g)", l, C.log2Ml[l], o.lg[l], o.lgtol);
                }
                double m = exp2((double)C.log2Ml[l]) * (C.Vl[l] == 1 ? 1.0 : o.unvc);
                if (C.log2Ml[l] < 120 && C.log2Ml[l] > -120 && !feq(C.Ml[l], m, 2e-5, 0)) {
                    BAD("amplitude", "Ml[%d] %.7g, want %.7g", l, C.Ml[l], m);
                }
                want.Vl[l] = C.Vl[l];
                want.Ml[l] = C.Ml[l];
                want.log2Ml[l] = C.log2Ml[l];
            }
            want.L = o.L;
            want.w0 = C.w0;
            sig(mix((uint64_t)codec, mix(hashb(d, (size_t)n), (uint64_t)prev.L)));
            CNT(o.sil ? "silence models" : "voice models");
            chain = true;
            last = C;
        } else {
            CNT(o.ret == 1 ? "reserved pitch" : o.ret == 2 ? "erasures" : "tone-class frames");
            sig(mix((uint64_t)codec * 100 + (uint64_t)o.ret, hashb(d, (size_t)n)));
        }
        DiffBuf db;
        if (const char* t = diff_parms(C, want, true, db)) {
            BAD("undocumented-change", "current state: %s", t);
        }
        // previous state: only its extension to the new harmonic count (and the half-rate index 0) may be filled in
        mbe_parms pw = prev;
        if (o.model) {
            for (int l = prev.L + 1; l <= o.L; l++) {
                if (P.Ml[l] == prev.Ml[prev.L]) {
                    pw.Ml[l] = P.Ml[l];
                }
                if (P.log2Ml[l] == prev.log2Ml[prev.L]) {
                    pw.log2Ml[l] = P.log2Ml[l];
                }
            }
            if (!is_imbe(codec)) {
                if (P.Ml[0] == prev.Ml[1]) {
                    pw.Ml[0] = P.Ml[0];
                }
                if (P.log2Ml[0] == prev.log2Ml[1]) {
                    pw.log2Ml[0] = P.log2Ml[0];
                }
            }
        }
        if (const char* t = diff_parms(P, pw, true, db)) {
            BAD("undocumented-change", "previous state: %s", t);
        }
        if (it == 5 && cx.caseno < 2) {
            sample("%s pitch %d prevL %d -> class %d L %d w0 %.5f log2M[1]=%.4f", cname[codec], get_b0(codec, d), prev.L, ret,
                   C.L, C.w0, C.log2Ml[1]);
        }
#undef BAD
    }
}
MODE(decimbe) { dec_case(cx, I72); }
MODE(dec2450) { dec_case(cx, A50); }
MODE(dec2400) { dec_case(cx, A00); }
