// P22 build configurations, P30 pure calls, P34 whole-frame = stages, P35 copies/version/dumps, P33 recovery.
#include "script.h"
#include <fenv.h>

static bool amb_flip(Lib& L, const St& pre, const St& post, int l) {
    // could rounding have decided the forced voicing of band l? rebuild the smoothing decision with margins
    mbe_parms m = post.p;
    double r0 = 0;
    for (int i = 1; i <= m.L; i++) {
        r0 += (double)m.Ml[i] * m.Ml[i];
    }
    L.f_spectralAmpEnhance(&m);
    Smooth o;
    smooth(m, pre.e, r0, o);
    return o.branch_amb || o.Vamb[l];
}
static double model_scale(const St& a, const St& b) {
    double s = 1;
    for (int l = 1; l <= 56; l++) {
        s += fabs((double)a.c.Ml[l]) + fabs((double)b.e.Ml[l]);
    }
    for (int i = 0; i < 256; i++) {
        s += fabs((double)a.c.previousUw[i]) / 64 + fabs((double)b.e.previousUw[i]) / 64;
    }
    return s;
}
// how ill-conditioned the enhancement weights of this frame are: they divide by RM0^2 - RM1^2
static double weight_error(const mbe_parms& m) {
    double r0 = 0, r1 = 0;
    for (int l = 1; l <= m.L && l <= 56; l++) {
        double e = (double)m.Ml[l] * m.Ml[l];
        r0 += e;
        r1 += e * cos((double)m.w0 * l);
    }
    double rel = r0 > 0 ? (r0 * r0 - r1 * r1) / (r0 * r0) : 1;
    return fmin(1e-6 / fmax(rel, 1e-9), 2e-3);
}
static bool near_decisions(const St& pre, const St& post) { // synthesis branches decided by rounding
    for (int k = 0; k < 2; k++) {
        const mbe_parms& m = k ? pre.e : post.c;
        for (int l = 0; l <= m.L; l++) {
            double x = m.w0 * 256 / (2 * PI) * (l + 0.5);
            if (fabs(x - nearbyint(x)) < 1e-3) {
                return true;
            }
        }
    }
    for (int l = 1; l < 8; l++) { // the phase deviation of an interpolated harmonic wraps at +-pi
        double d = (double)post.c.PHIl[l] - pre.e.PHIl[l] - 80.0 * l * ((double)post.c.w0 + pre.e.w0);
        if (post.c.Vl[l] == 1 && pre.e.Vl[l] == 1 && fabs(fabs(remainder(d, 2 * PI)) - PI) < 5e-3) {
            return true;
        }
    }
    return fabs(fabs((double)post.c.w0 - pre.e.w0) - 0.1 * post.c.w0) < 1e-5;
}
static const char* cmp_models(const St& a, const St& b, DiffBuf& db, double rt, double scale, const char** which, bool phases) {
    for (int k = 0; k < 3; k++) {
        mbe_parms x = k == 0 ? a.c : k == 1 ? a.p : a.e, y = k == 0 ? b.c : k == 1 ? b.p : b.e;
        *which = k == 0 ? "current" : k == 1 ? "previous" : "enhanced";
        if (!phases) {
            memcpy(y.PHIl, x.PHIl, sizeof x.PHIl);
            memcpy(y.PSIl, x.PSIl, sizeof x.PSIl);
            y.swn = x.swn;
            y.un = x.un;
        }
        for (int l = 0; l < 57; l++) { // phases are angles
            double d = remainder((double)x.PSIl[l] - y.PSIl[l], 2 * PI), e = remainder((double)x.PHIl[l] - y.PHIl[l], 2 * PI);
            double m = 1e-6 * (fabs((double)x.PSIl[l]) + fabs((double)x.PHIl[l])) + 2e-3;
            if (fabs(d) < m && fabs(e) < m) {
                y.PSIl[l] = x.PSIl[l];
                y.PHIl[l] = x.PHIl[l];
            }
        }
        const char* t = diff_parms(x, y, false, db, rt, 1e-5, 1e-3, scale * 2e-4);
        if (t) {
            return t;
        }
    }
    return nullptr;
}

MODE(parity) {
    Rng& r = cx.r;
    int codec = (int)(cx.caseno & 3);
    Lib& R = *cx.byname("ref");
    St st;
    static CallRes a, b;
    uint32_t seed = r.u32();
    st_init(R, st);
    for (int i = 0; i < cx.nlib; i++) {
        St t;
        cx.lib(i).f_initMbeParms(&t.c, &t.p, &t.e);
        if (memcmp(&t, &st, sizeof t)) {
            viol("init", "%s: initial state differs from the reference build's", cx.lib(i).name);
            return;
        }
        if (strcmp(cx.lib(i).f_versionString(), R.f_versionString())) {
            viol("version", "%s: version differs", cx.lib(i).name);
        }
    }
    Hist h(codec, 0.6);
    bool mixed = r.chance(0.15);
    for (int k = 0; k < 80; k++) {
        if (mixed && r.chance(0.1)) {
            h.codec = r.below(4);
            h.g = DGen(h.codec);
        }
        Step s;
        h.next(r, s);
        codec = s.codec;
        if (r.chance(0.12)) { // stored phases a caller may hand over: any angle, also negative or many turns away
            CNT("states with unwrapped phases");
            double top = r.bit() ? 7 : 40;
            for (int l = 1; l < 57; l++) {
                st.e.PSIl[l] = (float)(r.range(-1000, 1000) * top / 1000);
                if (r.bit()) {
                    st.e.PHIl[l] = (float)(r.range(-1000, 1000) * 7 / 1000.0);
                }
            }
        }
        St pre = st;
        bool sh = r.chance(0.2);
        bool reseed = r.chance(0.2);
        if (reseed) {
            seed = r.u32();
        }
        if (reseed || k == 0) {
            for (int i = 0; i < cx.nlib; i++) {
                cx.lib(i).f_setThreadRngSeed(seed);
            }
        }
        do_step(R, s, sh, st, a);
        double scale = model_scale(st, pre), werr = weight_error(st.p);
        Dec dd;
        bool tone = false;
        if (codec == A50) {
            tone = tone2450(s.d) && s.errs2 < 6 && tone_id_valid(tone_id(s.d));
        } else if (codec == A00) {
            dec_2400(s.d, pre.p, dd);
            tone = dd.ret >= 5 && s.errs < 2 && s.errs2 < 3;
        }
        for (int i = 0; i < cx.nlib; i++) {
            Lib& X = cx.lib(i);
            if (&X == &R) {
                continue;
            }
            St t = pre;
            do_step(X, s, sh, t, b);
            evals(1);
            bool silent = tone && !strcmp(X.name, "notones");
            bool fast = !strcmp(X.name, "fast");
            bool same = !strcmp(X.name, "dbg") || !strcmp(X.name, "notones") || !strcmp(X.name, "strict");
            const char* what = nullptr;
            DiffBuf db;
            if (a.errs != b.errs || a.errs2 != b.errs2) {
                what = "error counts";
            } else if (strcmp(a.str, b.str)) {
                what = "status text";
            } else if (memcmp(a.d, b.d, 88)) {
                what = "recovered bits";
            }
            if (what) {
                viol("discrete", "%s %s %s frame %d: %s differs from the reference build ('%s' vs '%s')", X.name, cname[codec],
                     s.frame ? "frame" : "data", k, what, b.str, a.str);
                return;
            }
            // voicing decided by rounding?
            bool excused = false;
            for (int l = 1; l <= st.c.L && l <= 56; l++) {
                if (st.c.L == t.c.L && st.c.Vl[l] != t.c.Vl[l] && amb_flip(R, pre, st, l)) {
                    excused = true;
                }
            }
            if (excused) {
                CNT("frames decided by rounding");
                continue;
            }
            const char* which = "";
            const char* m = cmp_models(st, t, db, (fast ? 5e-5 : 2e-5) + werr, scale, &which, !silent);
            if (m) {
                if (near_decisions(pre, st)) {
                    CNT("frames decided by rounding");
                    continue;
                }
                viol("state", "%s %s %s frame %d: %s state differs from the reference build: %s", X.name, cname[codec],
                     s.frame ? "frame" : "data", k, which, m);
                return;
            }
            double worst = 0;
            int at = 0;
            for (int q = 0; q < 160; q++) {
                double x = sh ? a.sh[q] / 7.0 : a.a[q], y = sh ? b.sh[q] / 7.0 : b.a[q];
                if (silent) {
                    x = 0;
                }
                double d = fabs(x - y) - (sh ? 0.15 : 0);
                if (!(d <= worst)) {
                    worst = d;
                    at = q;
                }
            }
            double top = 0;
            for (int q = 0; q < 160; q++) {
                top = fmax(top, fabs(sh ? a.sh[q] / 7.0 : (double)a.a[q]));
            }
            double tol = silent ? 0 : (3e-4 + werr) * scale + 1e-5 * top; // tones are louder than the stored models
            if (!(worst <= tol)) {
                if (near_decisions(pre, st)) {
                    CNT("frames decided by rounding");
                    continue;
                }
                viol("audio", "%s %s %s frame %d: sample %d is %.7g, reference %.7g (scale %.4g)", X.name, cname[codec],
                     s.frame ? "frame" : "data", k, at, sh ? b.sh[at] / 7.0 : (double)b.a[at], silent ? 0 : sh ? a.sh[at] / 7.0 : (double)a.a[at], scale);
                return;
            }
            if (worst > 1e-4 * scale) {
                CNT("audio differences above 1e-4 of scale");
            }
            (void)same;
            CNT(silent ? "silenced tones" : "frames compared");
        }
        if (tone) {
            CNT("tones");
        }
        sig(mix(hashb(a.str, strlen(a.str)), hashb(st.c.Ml, sizeof st.c.Ml)));
        // single stages on the same inputs
        if (k % 8 == 0) {
            for (int i = 0; i < cx.nlib; i++) {
                Lib& X = cx.lib(i);
                if (&X == &R) {
                    continue;
                }
                mbe_parms m0 = st.p, m1 = st.p;
                R.f_spectralAmpEnhance(&m0);
                X.f_spectralAmpEnhance(&m1);
                DiffBuf db;
                const char* m = diff_parms(m0, m1, false, db, 5e-5);
                if (m) {
                    viol("stage-enhance", "%s: enhancement differs: %s", X.name, m);
                    return;
                }
                float f0[160], f1[160];
                short q0[160], q1[160];
                for (int q = 0; q < 160; q++) {
                    f0[q] = (float)(r.gauss() * (r.bit() ? 300 : 8000));
                }
                R.f_floattoshort(f0, q0);
                X.f_floattoshort(f0, q1);
                if (memcmp(q0, q1, sizeof q0)) {
                    viol("stage-convert", "%s: float to 16-bit conversion differs", X.name);
                    return;
                }
                R.f_synthesizeComfortNoisef(f0);
                X.f_synthesizeComfortNoisef(f1);
                for (int q = 0; q < 160; q++) {
                    if (!(fabs(f0[q] - f1[q]) < 1e-4)) {
                        viol("stage-comfort", "%s: comfort noise differs (%g vs %g)", X.name, (double)f1[q], (double)f0[q]);
                        return;
                    }
                }
                // keep the reference generator in step with the other libraries' next comparison
                for (int q = 0; q < cx.nlib; q++) {
                    cx.lib(q).f_setThreadRngSeed(seed);
                }
                evals(3);
            }
        }
    }
    if (cx.caseno < 3) {
        sample("%s: 80 frames agree across %d builds", cname[codec], cx.nlib);
    }
}

// ------------------------------------------------------------------ P30
// What a call shares with the rest of the process: floating-point control modes, standard streams, the C library's generator.
struct EnvMon {
    fenv_t env;
    unsigned csr;
    off_t err;
    int rnd;
    static unsigned csr_now() {
#if defined(__x86_64__)
        return __builtin_ia32_stmxcsr() & ~0x3fu; // control bits: masks, rounding, flush-to-zero, denormals-are-zero
#else
        return 0;
#endif
    }
    void begin() {
        memset(&env, 0, sizeof env);
        fegetenv(&env);
        csr = csr_now();
        fflush(stdout);
        err = lseek(2, 0, SEEK_CUR);
        srand(4242);
        rnd = rand();
        srand(4242);
    }
    const char* end() {
        fenv_t e;
        memset(&e, 0, sizeof e);
        fegetenv(&e);
        if (fegetround() != FE_TONEAREST || csr_now() != csr) {
            return "changed the floating-point control modes";
        }
#if defined(__x86_64__)
        if (e.__control_word != env.__control_word) {
            return "changed the x87 control word";
        }
#endif
        if (rand() != rnd) {
            return "drew from or reseeded the C library's generator";
        }
        fflush(stdout);
        fflush(stderr);
        if (lseek(2, 0, SEEK_CUR) != err) {
            return "printed to a standard stream";
        }
        return nullptr;
    }
};
MODE(pure) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    EnvMon em;
    if (!g_verbose) {
        fflush(stdout);
        dup2(2, 1); // workers log to a file of their own: its position shows what is printed
    }
    int codec = (int)(cx.caseno & 3);
    St st;
    st_init(L, st);
    Hist h(codec, 0.6);
    for (int k = 0; k < 40; k++) {
        Step s;
        h.next(r, s);
        uint32_t seed = r.u32();
        bool sh = r.chance(0.4);
        int nb = nbits(codec);
        St out[3];
        uint8_t au[3][640], txt[3][600], bits[3][88], frs[3][192];
        int er[3], er2[3];
        for (int v = 0; v < 3; v++) {
            out[v] = st;
            size_t an = sh ? 320 : 640;
            GBuf a(an), e1(4), e2(4), str((size_t)s.errs2 + 3), fr((size_t)frsz(codec)), d((size_t)nb);
            // previous contents of the outputs
            for (GBuf* b : {&a, &e1, &e2, &str, &d}) {
                for (size_t i = 0; i < b->n; i++) {
                    b->p[i] = v == 0 ? 0 : v == 1 ? 0xff : (uint8_t)r.u32();
                }
            }
            memcpy(fr.p, s.fr, fr.n);
            static const int uvs[] = {3, 0, -1, 1, 1000000, -2147483647 - 1, 2147483647};
            int uv = v == 0 ? 3 : uvs[r.below(7)];
            L.f_setThreadRngSeed(seed);
            em.begin();
            if (s.frame) {
                proc_frame(L, codec, sh, a.p, e1.i(), e2.i(), str.c(), fr.c(), d.c(), &out[v].c, &out[v].p, &out[v].e, uv);
            } else {
                memcpy(d.p, s.d, d.n);
                *e2.i() = s.errs2;
                // reserved for everything but the D-STAR tone gate
                *e1.i() = codec == A00 || v == 0 ? s.errs : r.bit() ? r.range(-100, 100) : (int)r.u32();
                int e1v = *e1.i();
                proc_data(L, codec, sh, a.p, e1.i(), e2.i(), str.c(), d.c(), &out[v].c, &out[v].p, &out[v].e, uv);
                if (*e1.i() != e1v || *e2.i() != s.errs2) {
                    viol("input-modified", "%s %s data: the error-count inputs were modified", L.name, cname[codec]);
                    return;
                }
                if (memcmp(d.p, s.d, d.n)) {
                    viol("input-modified", "%s %s data: the parameter bits were modified", L.name, cname[codec]);
                    return;
                }
                *e1.i() = 0;
            }
            if (const char* what = em.end()) {
                viol("environment", "%s %s %s: the call %s", L.name, cname[codec], s.frame ? "frame" : "data", what);
                return;
            }
            if (!a.ok() || !e1.ok() || !e2.ok() || !str.ok() || !fr.ok() || !d.ok()) {
                viol("guard", "%s %s: wrote outside a buffer", L.name, cname[codec]);
                return;
            }
            memcpy(au[v], a.p, an);
            memset(txt[v], 0, 600);
            size_t tl = strnlen(str.c(), str.n);
            if (tl == str.n) {
                viol("text", "%s %s: status text is not terminated", L.name, cname[codec]);
                return;
            }
            memcpy(txt[v], str.p, tl < 599 ? tl : 599);
            er[v] = *e1.i();
            er2[v] = *e2.i();
            memset(bits[v], 0, 88);
            memcpy(bits[v], d.p, d.n);
            memcpy(frs[v], fr.p, fr.n);
            const char* what = nullptr;
            if (v) {
                what = memcmp(au[v], au[0], an)                    ? "audio"
                       : memcmp(txt[v], txt[0], 600)               ? "status text"
                       : memcmp(bits[v], bits[0], 88)              ? "recovered bits"
                       : memcmp(frs[v], frs[0], (size_t)frsz(codec)) ? "frame contents"
                       : er[v] != er[0] || er2[v] != er2[0]        ? "error counts"
                       : memcmp(&out[v], &out[0], sizeof out[0])   ? "state"
                                                                   : nullptr;
            }
            if (what) {
                viol("ignored-input", "%s %s %s: %s depends on previous output contents or ignored arguments (uvquality %d)", L.name,
                     cname[codec], s.frame ? "frame" : "data", what, uv);
                return;
            }
            evals(1);
        }
        CNT(s.frame ? "frame calls" : "data calls");
        sig(hashb(&out[0], sizeof out[0]));
        // bits and counts depend on the frame alone
        if (s.frame) {
            St x;
            if (r.bit()) {
                st_init(L, x);
            } else {
                x.c = st.e;
                x.p = st.c;
                x.e = st.p;
            }
            static CallRes o;
            do_step(L, s, false, x, o);
            evals(1);
            if (memcmp(o.d, bits[0], (size_t)nb) || o.errs != er[0] || o.errs2 != er2[0]) {
                viol("history", "%s %s: recovered bits or counts depend on the decoder's state", L.name, cname[codec]);
                return;
            }
            CNT("frames decoded from another state");
        }
        // stages: read-only inputs
        em.begin();
        {
            St keep = st;
            if (r.bit()) { // models decoding rarely or never yields
                int vk = r.below(4), ak = r.below(6);
                for (mbe_parms* m : {&st.c, &st.p, &st.e}) {
                    for (int l = 0; l < 57; l++) {
                        m->Vl[l] = vk == 0 ? 0 : vk == 1 ? 1 : vk == 2 ? m->Vl[l] : r.bit();
                        m->Ml[l] *= ak == 0 ? 0.0f : ak == 1 ? 1e-42f : ak == 2 ? 1e-20f : ak == 3 ? 1e6f : 1.0f;
                    }
                    if (r.chance(0.3)) {
                        m->repeatCount = r.below(5);
                        m->errorCountTotal = r.below(20);
                        m->errorRate = (float)r.uni() * 0.12f;
                        m->localEnergy *= (float)exp(r.gauss() * 10);
                        m->amplitudeThreshold = r.range(-100, 100000);
                    }
                }
                CNT("stage calls on uncommon models");
            }
            uint8_t d[88], d0[88];
            memcpy(d, s.d, 88);
            memcpy(d0, s.d, 88);
            St x = st;
            mbe_parms prev = r.bit() ? st.p : st.e, p0 = prev;
            dec_parms(L, codec, (char*)d, &x.c, &prev);
            // the predictor may extend the spectrum below the first and above the last harmonic (Ml, log2Ml [0] and > L)
            for (int l = 0; l < 57; l++) {
                if (l == 0 || l > p0.L) {
                    prev.Ml[l] = p0.Ml[l];
                    prev.log2Ml[l] = p0.log2Ml[l];
                }
            }
            if (memcmp(d, d0, 88) || memcmp(&prev, &p0, sizeof prev)) {
                viol("input-modified", "%s %s: parameter decoding modified its inputs", L.name, cname[codec]);
                return;
            }
            mbe_parms a = st.c, b = st.e, b0 = b;
            L.f_applyAdaptiveSmoothing(&a, &b);
            if (memcmp(&b, &b0, sizeof b)) {
                viol("input-modified", "%s: smoothing modified the previous parameters", L.name);
                return;
            }
            b = b0;
            (void)(L.f_requiresMuting(&b) + L.f_isMaxFrameRepeat(&b) + L.f_requiresAdaptiveSmoothing(&b));
            if (memcmp(&b, &b0, sizeof b)) {
                viol("input-modified", "%s: a predicate modified its argument", L.name);
                return;
            }
            float f0[160], f1[160];
            short q0[160], q1[160];
            for (int i = 0; i < 160; i++) {
                f0[i] = f1[i] = (float)(r.gauss() * 4000);
                q0[i] = 0x1111;
                q1[i] = -3;
            }
            L.f_floattoshort(f0, q0);
            L.f_floattoshort(f1, q1);
            if (memcmp(f0, f1, sizeof f0) || memcmp(q0, q1, sizeof q0)) {
                viol("input-modified", "%s: conversion modified its input or left output samples unwritten", L.name);
                return;
            }
            // outputs of the synthesis stages do not depend on what was in the buffer
            for (int t = 0; t < 2; t++) {
                for (int i = 0; i < 160; i++) {
                    (t ? f1 : f0)[i] = t ? 1e30f : -7.0f;
                }
            }
            mbe_parms c1 = st.c, c2 = st.c, e1 = st.e, e2 = st.e;
            L.f_setThreadRngSeed(seed);
            L.f_synthesizeSpeechf(f0, &c1, &e1, 3);
            L.f_setThreadRngSeed(seed);
            L.f_synthesizeSpeechf(f1, &c2, &e2, (int)r.u32());
            if (memcmp(f0, f1, sizeof f0) || memcmp(&c1, &c2, sizeof c1) || memcmp(&e1, &e2, sizeof e1)) {
                viol("ignored-input", "%s: speech synthesis depends on the buffer's contents or the quality knob", L.name);
                return;
            }
            DGen tg(r.bit() ? A50 : A00);
            uint8_t td[88], td0[88];
            tg.next(r, SPECIAL, td);
            memcpy(td0, td, 88);
            int id = r.range(0, 130), kind = r.below(4);
            mbe_parms t1 = st.c, t2 = st.c;
            for (int t = 0; t < 2; t++) {
                float* f = t ? f1 : f0;
                for (int i = 0; i < 160; i++) {
                    f[i] = t ? 1e30f : -7.0f;
                }
                L.f_setThreadRngSeed(seed);
                kind == 0   ? L.f_synthesizeTonef(f, (char*)td, t ? &t2 : &t1)
                : kind == 1 ? L.f_synthesizeTonefdstar(f, (char*)td, t ? &t2 : &t1, id)
                : kind == 2 ? L.f_synthesizeSilencef(f)
                            : L.f_synthesizeComfortNoisef(f);
            }
            if (memcmp(f0, f1, sizeof f0) || memcmp(&t1, &t2, sizeof t1) || memcmp(td, td0, 88)) {
                viol("ignored-input", "%s: tone, silence or comfort-noise call %d depends on the buffer's contents or modified its bits", L.name, kind);
                return;
            }
            // block codes
            uint8_t in[23], o1[23], o2[23], in0[23];
            for (int i = 0; i < 23; i++) {
                in[i] = in0[i] = (uint8_t)r.bit();
            }
            memset(o1, 0x77, 23);
            memset(o2, 0x01, 23);
            int n1 = L.f_golay2312((char*)in, (char*)o1), n2 = L.f_golay2312((char*)in, (char*)o2);
            bool ok = n1 == n2 && !memcmp(o1, o2, 23);
            memset(o1, 0x77, 23);
            memset(o2, 0x01, 23);
            n1 = L.f_hamming1511((char*)in, (char*)o1), n2 = L.f_hamming1511((char*)in, (char*)o2);
            ok = ok && n1 == n2 && !memcmp(o1, o2, 15) && o1[15] == 0x77;
            n1 = L.f_7100x4400hamming1511((char*)in, (char*)o1), n2 = L.f_7100x4400hamming1511((char*)in, (char*)o2);
            ok = ok && n1 == n2 && !memcmp(o1, o2, 15) && !memcmp(in, in0, 23) && o1[15] == 0x77;
            if (!ok) {
                viol("ignored-input", "%s: a block decoder modified its input or depends on its output's contents", L.name);
                return;
            }
            // data stage: bits fully written, independent of what was there
            uint8_t fr1[192], fr2[192], b1[88], b2[88];
            memcpy(fr1, s.frame ? s.fr : frs[0], 192);
            for (int i = 0; i < 192; i++) {
                fr1[i] &= 1;
            }
            memcpy(fr2, fr1, 192);
            memset(b1, 0, 88);
            memset(b2, 1, 88);
            n1 = ecc_data(L, codec, (char*)fr1, (char*)b1);
            n2 = ecc_data(L, codec, (char*)fr2, (char*)b2);
            if (n1 != n2 || memcmp(b1, b2, (size_t)nb)) {
                viol("ignored-input", "%s %s: the data stage leaves output bits unwritten", L.name, cname[codec]);
                return;
            }
            if (const char* what = em.end()) {
                viol("environment", "%s %s: one of the stage calls %s", L.name, cname[codec], what);
                return;
            }
            CNT("rounds of calls with the process environment compared");
            evals(12);
            st = keep;
        }
        st = out[0];
    }
}

// ------------------------------------------------------------------ P37
/// what a call prints to standard error: its '0' and '1' characters
struct Dumped {
    char bits[1024];
    int n = 0, other = 0;
    int fd, mem;
    Dumped() {
        fflush(stderr);
        fd = dup(2);
        mem = memfd_create("dump", 0);
        dup2(mem, 2);
    }
    void done() {
        fflush(stderr);
        dup2(fd, 2);
        close(fd);
        static char raw[65536];
        ssize_t k = pread(mem, raw, sizeof raw, 0);
        close(mem);
        for (ssize_t i = 0; i < k; i++) {
            if (raw[i] == '0' || raw[i] == '1') {
                if (n < 1000) {
                    bits[n++] = raw[i];
                }
            } else if ((raw[i] >= '2' && raw[i] <= '9') || raw[i] == '-') {
                other++;
            }
        }
        bits[n] = 0;
    }
};
MODE(dumps) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    static const int w72[8] = {23, 23, 23, 23, 15, 15, 15, 7}, w71[7] = {19, 24, 23, 23, 15, 15, 23};
    static const char* name[5] = {"mbe_dumpImbe4400Data", "mbe_dumpImbe7200x4400Data", "mbe_dumpImbe7100x4400Data",
                                  "mbe_dumpImbe7200x4400Frame", "mbe_dumpImbe7100x4400Frame"};
    for (int k = 0; k < 40; k++) {
        int which = k % 5;
        size_t sz = which < 3 ? 88 : which == 3 ? 8 * 23 : 7 * 24;
        GBuf b(sz);
        int prof = (int)r.below(4), one = (int)r.below((uint32_t)sz);
        for (size_t i = 0; i < sz; i++) {
            b.p[i] = (uint8_t)(prof == 0 ? 0 : prof == 1 ? 1 : prof == 2 ? r.bit() : (int)i == one);
        }
        char want[256];
        int n = 0;
        if (which < 3) {
            for (int i = 0; i < 88; i++) {
                want[n++] = (char)('0' + b.p[i]);
            }
        } else {
            const int* w = which == 3 ? w72 : w71;
            int cols = which == 3 ? 23 : 24, rows = which == 3 ? 8 : 7;
            for (int i = 0; i < rows; i++) {
                for (int j = w[i] - 1; j >= 0; j--) {
                    want[n++] = (char)('0' + b.p[i * cols + j]);
                }
            }
        }
        want[n] = 0;
        static uint8_t keep[192];
        memcpy(keep, b.p, sz);
        Dumped d;
        switch (which) {
            case 0: L.f_dumpImbe4400Data(b.c()); break;
            case 1: L.f_dumpImbe7200x4400Data(b.c()); break;
            case 2: L.f_dumpImbe7100x4400Data(b.c()); break;
            case 3: L.f_dumpImbe7200x4400Frame((const char(*)[23])b.p); break;
            default: L.f_dumpImbe7100x4400Frame((const char(*)[24])b.p); break;
        }
        d.done();
        evals(1);
        CNT(which < 3 ? "dumped vectors" : "dumped frames");
        if (d.n != n || memcmp(d.bits, want, (size_t)n) || d.other) {
            int i = 0;
            while (i < n && i < d.n && d.bits[i] == want[i]) {
                i++;
            }
            viol("dump-bits", "%s: %s printed %d bits, want %d; first difference at bit %d%s", L.name, name[which], d.n, n, i,
                 d.other ? "; other digits printed" : "");
            return;
        }
        if (!b.ok() || memcmp(keep, b.p, sz)) {
            viol("dump-bits", "%s: %s modified its argument", L.name, name[which]);
            return;
        }
        sig(hashb(want, (size_t)n) + (uint64_t)which);
    }
}

// ------------------------------------------------------------------ P36
/// largest deviation of a model from the expected one; first discrete difference wins
static const char* near_model(const mbe_parms& a, const mbe_parms& w, double tol) {
    static char b[200];
    auto bad = [&](const char* f, double x, double y, double t) {
        if (!(fabs(x - y) <= t)) {
            snprintf(b, sizeof b, "%s is %.9g, want %.9g", f, x, y);
            return true;
        }
        return false;
    };
    if (bad("L", a.L, w.L, 0) || bad("K", a.K, w.K, 0) || bad("w0", a.w0, w.w0, 1e-6) || bad("repeat", a.repeat, w.repeat, 0)
        || bad("repeatCount", a.repeatCount, w.repeatCount, 0) || bad("gamma", a.gamma, w.gamma, tol)
        || bad("swn", a.swn, w.swn, 0) || bad("un", a.un, w.un, 0)
        || bad("localEnergy", a.localEnergy, w.localEnergy, tol * fabs(w.localEnergy))
        || bad("amplitudeThreshold", a.amplitudeThreshold, w.amplitudeThreshold, tol * 30000)
        || bad("errorRate", a.errorRate, w.errorRate, 1e-6) || bad("errorCountTotal", a.errorCountTotal, w.errorCountTotal, 0)
        || bad("errorCount4", a.errorCount4, w.errorCount4, 0) || bad("mutingThreshold", a.mutingThreshold, w.mutingThreshold, 1e-6)
        || bad("noiseSeed", a.noiseSeed, w.noiseSeed, 0)) {
        return b;
    }
    char f[32];
    for (int l = 1; l <= 56; l++) {
        snprintf(f, sizeof f, "Vl[%d]", l);
        if (bad(f, a.Vl[l], w.Vl[l], 0)) {
            return b;
        }
        snprintf(f, sizeof f, "Ml[%d]", l);
        if (bad(f, a.Ml[l], w.Ml[l], tol * fabs(w.Ml[l]))) {
            return b;
        }
        snprintf(f, sizeof f, "log2Ml[%d]", l);
        if (bad(f, a.log2Ml[l], w.log2Ml[l], tol * 4)) {
            return b;
        }
        snprintf(f, sizeof f, "PSIl[%d]", l);
        if (bad(f, remainder((double)a.PSIl[l] - w.PSIl[l], 2 * PI), 0, 20 * tol)) {
            return b;
        }
        snprintf(f, sizeof f, "PHIl[%d]", l);
        if (bad(f, remainder((double)a.PHIl[l] - w.PHIl[l], 2 * PI), 0, 20 * tol)) {
            return b;
        }
    }
    double pk = 1;
    for (float x : w.previousUw) {
        pk = fmax(pk, fabs(x));
    }
    for (int i = 0; i < 256; i++) {
        snprintf(f, sizeof f, "previousUw[%d]", i);
        if (bad(f, a.previousUw[i], w.previousUw[i], pk * tol)) {
            return b;
        }
    }
    for (int i = 0; i < 96; i++) {
        snprintf(f, sizeof f, "noiseOverlap[%d]", i);
        if (bad(f, a.noiseOverlap[i], w.noiseOverlap[i], tol)) {
            return b;
        }
    }
    return nullptr;
}
MODE(defaults) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    static CallRes A, B;
    static St past;
    double tol = !strcmp(L.name, "fast") ? 4e-3 : 1e-3;
    for (int round = 0; round < 24; round++) {
        // a past: nothing, arbitrary bytes, or a decoded history
        int kind = r.below(3);
        st_init(L, past);
        if (kind == 1) {
            uint8_t* q = (uint8_t*)&past;
            for (size_t i = 0; i < sizeof past; i++) {
                q[i] = (uint8_t)r.u32();
            }
        } else if (kind == 2) {
            Hist h((int)r.below(4), 0.5);
            int n = r.range(1, 30);
            for (int i = 0; i < n; i++) {
                Step s;
                h.next(r, s);
                do_step(L, s, false, past, A);
            }
        }
        mbe_parms wi, wa;
        fresh_imbe(wi);
        fresh_ambe(wa);
        St x = past;
        L.f_initMbeParms(&x.c, &x.p, &x.e);
        evals(3);
        const mbe_parms* m[3] = {&x.c, &x.p, &x.e};
        static const char* mn[] = {"current", "previous", "enhanced"};
        for (int i = 0; i < 3; i++) {
            if (const char* d = near_model(*m[i], wi, 0)) {
                viol("default-model", "%s: after initialisation of %s state the %s model's %s", L.name,
                     kind == 0 ? "fresh" : kind == 1 ? "arbitrary" : "used", mn[i], d);
                return;
            }
        }
        CNT("initialised states");
        // the first frame of a stream sounds as it does on the documented default model
        int codec = (int)r.below(4);
        DGen g(codec);
        St y;
        y.c = y.p = y.e = is_imbe(codec) ? wi : wa;
        uint32_t seed = r.u32();
        int n = r.range(1, 3);
        for (int k = 0; k < n; k++) {
            Step s;
            step_gen(r, g, codec, r.chance(0.6), r.chance(0.75) ? (int)VOICE : (int)g.pick_prof(r), (int)r.below(3), s);
            L.f_setThreadRngSeed(seed + (uint32_t)k);
            do_step(L, s, false, x, A);
            L.f_setThreadRngSeed(seed + (uint32_t)k);
            do_step(L, s, false, y, B);
            evals(1);
            CNT(is_imbe(codec) ? "first frames on the full-rate defaults" : "first frames on the half-rate defaults");
            double pk = 1;
            for (float v : B.a) {
                pk = fmax(pk, fabs(v));
            }
            for (int i = 0; i < 160; i++) {
                if (!(fabs((double)A.a[i] - B.a[i]) <= pk * tol * 8)) {
                    viol("first-frame", "%s %s %s call %d of a stream: sample %d is %.9g, on the documented default model %.9g", L.name,
                         cname[codec], s.frame ? "frame" : "data", k, i, A.a[i], B.a[i]);
                    return;
                }
            }
            if (strcmp(A.str, B.str) || A.errs2 != B.errs2) {
                viol("first-frame", "%s %s call %d of a stream: text '%.20s', on the documented default model '%.20s'", L.name,
                     cname[codec], k, A.str, B.str);
                return;
            }
            const mbe_parms* pa[3] = {&x.c, &x.p, &x.e};
            const mbe_parms* pb[3] = {&y.c, &y.p, &y.e};
            for (int i = 0; i < 3; i++) {
                if (const char* d = near_model(*pa[i], *pb[i], tol)) {
                    viol("first-frame", "%s %s call %d of a stream: the %s model's %s on the documented default model", L.name,
                         cname[codec], k, mn[i], d);
                    return;
                }
            }
        }
        sig(((uint64_t)codec << 40) ^ ((uint64_t)kind << 36) ^ ((uint64_t)n << 32) ^ ((uint64_t)x.p.L << 16) ^ (uint64_t)(uint32_t)x.p.K << 8
            ^ (uint64_t)A.errs2);
    }
}

// ------------------------------------------------------------------ P34
MODE(stages) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    int codec = (int)(cx.caseno & 3);
    St st;
    st_init(L, st);
    Hist h(codec, 0.9);
    static CallRes A, B;
    for (int k = 0; k < 80; k++) {
        Step s;
        h.next(r, s);
        bool sh = r.chance(0.3);
        uint32_t seed = r.u32();
        if (!s.frame) {
            do_step(L, s, false, st, A);
            continue;
        }
        St x = st, y = st;
        L.f_setThreadRngSeed(seed);
        do_step(L, s, sh, x, A);
        // the documented stages
        uint8_t fr[192], d[88];
        memset(d, 0, 88);
        memcpy(fr, s.fr, 192);
        int e0 = ecc_c0(L, codec, (char*)fr);
        demod(L, codec, (char*)fr);
        int e1 = e0 + ecc_data(L, codec, (char*)fr, (char*)d);
        if (codec == I71) {
            L.f_convertImbe7100to7200((char*)d);
        }
        evals(1);
        if (e0 != A.errs || e1 != A.errs2 || memcmp(d, A.d, (size_t)nbits(codec))) {
            viol("recovered", "%s %s frame %d: process call recovered errs %d/%d, stages %d/%d%s", L.name, cname[codec], k, A.errs,
                 A.errs2, e0, e1, memcmp(d, A.d, (size_t)nbits(codec)) ? ", bits differ" : "");
            return;
        }
        CNT("frames compared with the stages");
        // parameter-level call: has it the same information?
        bool comparable = true;
        if (codec == A50) {
            bool rf = e0 >= 4 || (e0 >= 2 && e1 >= 6), rd = e1 > 3;
            bool voice = true;
            Dec dd;
            dec_2450(d, st.p, e1, dd);
            voice = dd.ret == 0;
            comparable = rf == rd || !voice;
        } else if (is_imbe(codec)) {
            float er = (float)(0.95 * (double)st.p.errorRate + 0.000365 * e1);
            double thr = 10.0 + 40.0 * er;
            bool bad = imbe_b0(d) > 207;
            bool rf = bad || (e0 >= 2 && e1 >= thr), rd = bad || e1 > 5;
            comparable = rf == rd && fabs(e1 - thr) > 1e-4 && s.c4 == 0;
        }
        if (!comparable) {
            CNT("frames where the two levels decide differently");
            st = x;
            continue;
        }
        Step q = s;
        q.frame = false;
        memcpy(q.d, d, 88);
        q.errs = e0;
        q.errs2 = e1;
        L.f_setThreadRngSeed(seed);
        do_step(L, q, sh, y, B);
        evals(1);
        const char* what = strcmp(A.str, B.str)                   ? "status text"
                           : memcmp(A.a, B.a, sizeof A.a)         ? "audio"
                           : memcmp(A.sh, B.sh, sizeof A.sh)      ? "16-bit audio"
                           : memcmp(&x, &y, sizeof x)             ? "state"
                                                                  : nullptr;
        if (what) {
            DiffBuf db;
            const char* t = diff_parms(x.c, y.c, true, db);
            viol("parameter-level", "%s %s frame %d (errs %d/%d): %s differs between the frame call and stages + parameter call (%s)",
                 L.name, cname[codec], k, e0, e1, what, t ? t : "");
            return;
        }
        CNT("frames compared with the parameter-level call");
        CNT(strpbrk(A.str, "RMET") ? "marked frames compared" : "plain frames compared");
        sig(hashb(&x.c, sizeof x.c));
        st = x;
    }
}

// ------------------------------------------------------------------ P35
struct Mute2 {
    int fd;
    Mute2() {
        fflush(stderr);
        fd = dup(2);
        int z = open("/dev/null", O_WRONLY);
        dup2(z, 2);
        close(z);
    }
    ~Mute2() {
        fflush(stderr);
        dup2(fd, 2);
        close(fd);
    }
};
MODE(copies) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    int codec = (int)(cx.caseno & 3);
    St st;
    st_init(L, st);
    Hist h(codec);
    static CallRes a, b;
    for (int k = 0; k < 30; k++) {
        Step s;
        h.next(r, s);
        do_step(L, s, false, st, a);
        // library-made state, or any bytes at all
        mbe_parms src = r.chance(0.5) ? st.c : r.bit() ? st.p : st.e;
        if (r.chance(0.3)) {
            for (size_t i = 0; i < sizeof src; i++) {
                ((uint8_t*)&src)[i] = (uint8_t)r.u32();
            }
            CNT("copies of arbitrary bytes");
        }
        mbe_parms s0 = src;
        GBuf dst(sizeof(mbe_parms));
        for (size_t i = 0; i < dst.n; i++) {
            dst.p[i] = (uint8_t)r.u32();
        }
        bool mv = r.bit();
        mv ? L.f_moveMbeParms(&src, dst.m()) : L.f_useLastMbeParms(dst.m(), &src);
        evals(1);
        if (memcmp(&src, &s0, sizeof src)) {
            viol("source", "%s: %s changed its source", L.name, mv ? "mbe_moveMbeParms" : "mbe_useLastMbeParms");
            return;
        }
        DiffBuf db;
        const char* t = diff_parms(*dst.m(), s0, true, db);
        if (t || !dst.ok()) {
            viol("copy", "%s: %s left source and copy different: %s", L.name, mv ? "mbe_moveMbeParms" : "mbe_useLastMbeParms",
                 t ? t : "wrote outside");
            return;
        }
        // onto itself
        mv ? L.f_moveMbeParms(&src, &src) : L.f_useLastMbeParms(&src, &src);
        if (memcmp(&src, &s0, sizeof src)) {
            viol("self", "%s: copying a state onto itself changed it", L.name);
            return;
        }
        CNT("copies");
        // decoding goes on identically from the copies (through both copy calls and swapped storage)
        St x, y = st;
        L.f_moveMbeParms(&st.c, &x.c);
        L.f_useLastMbeParms(&x.p, &st.p);
        L.f_moveMbeParms(&st.e, &x.e);
        uint32_t seed = r.u32();
        for (int q = 0; q < 2; q++) {
            Step n;
            h.next(r, n);
            L.f_setThreadRngSeed(seed);
            do_step(L, n, false, x, a);
            L.f_setThreadRngSeed(seed);
            do_step(L, n, false, y, b);
            evals(1);
            if (memcmp(a.a, b.a, sizeof a.a) || strcmp(a.str, b.str) || memcmp(&x, &y, sizeof x)) {
                viol("decode", "%s %s: decoding from copied state differs", L.name, cname[codec]);
                return;
            }
        }
        sig(hashb(&x, sizeof x));
        // version, dumps and null-tolerant calls
        if (k % 5 == 0) {
            GBuf v(32);
            for (int i = 0; i < 32; i++) {
                v.p[i] = 0x7e;
            }
            L.f_printVersion(v.c());
            evals(1);
            const char* vs = L.f_versionString();
            if (!v.ok() || strnlen(v.c(), 32) >= 32) {
                viol("version-bounds", "%s: mbe_printVersion does not stay within 32 bytes", L.name);
                return;
            }
            if (!vs || strcmp(vs, HX_VERSION) || strcmp(v.c(), HX_VERSION)) {
                viol("version", "%s: version calls report '%s' and '%s', the package is %s", L.name, vs ? vs : "(null)", v.c(), HX_VERSION);
                return;
            }
            St before = st;
            uint8_t d[88], f72[184], f71[168], c1[88], c2[184], c3[168];
            for (int i = 0; i < 184; i++) {
                f72[i] = (uint8_t)r.bit();
                f71[i % 168] = (uint8_t)r.bit();
                d[i % 88] = (uint8_t)r.bit();
            }
            memcpy(c1, d, 88);
            memcpy(c2, f72, 184);
            memcpy(c3, f71, 168);
            float f0[160], f1[160];
            L.f_setThreadRngSeed(seed);
            L.f_synthesizeComfortNoisef(f0);
            L.f_setThreadRngSeed(seed);
            int z;
            {
                Mute2 m;
                L.f_dumpImbe4400Data((char*)d);
                L.f_dumpImbe7200x4400Data((char*)d);
                L.f_dumpImbe7100x4400Data((char*)d);
                L.f_dumpImbe7200x4400Frame((const char(*)[23])f72);
                L.f_dumpImbe7100x4400Frame((const char(*)[24])f71);
                z = L.f_requiresMuting(nullptr) | L.f_isMaxFrameRepeat(nullptr) | L.f_requiresAdaptiveSmoothing(nullptr);
                L.f_synthesizeComfortNoisef(nullptr);
                L.f_synthesizeComfortNoise(nullptr);
                L.f_printVersion(nullptr);
            }
            L.f_synthesizeComfortNoisef(f1);
            evals(1);
            if (memcmp(d, c1, 88) || memcmp(f72, c2, 184) || memcmp(f71, c3, 168)) {
                viol("dump", "%s: a dump call modified its argument", L.name);
                return;
            }
            if (z) {
                viol("null", "%s: a predicate answered true for a null state", L.name);
                return;
            }
            if (memcmp(f0, f1, sizeof f0) || memcmp(&before, &st, sizeof st)) {
                viol("side-effect", "%s: dump, version or null-tolerant calls changed later output", L.name);
                return;
            }
            CNT("dump and version rounds");
        }
    }
}

// ------------------------------------------------------------------ P33
MODE(recover) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    int codec = (int)(cx.caseno & 3);
    St X, Y;
    st_init(L, X);
    st_init(L, Y);
    static CallRes a, b;
    DGen g(codec);
    // common part, then a burst that only X hears
    int common = r.chance(0.3) ? 0 : r.range(1, 15), burst = r.range(1, 60), kind = r.below(6);
    Step s;
    for (int k = 0; k < common; k++) {
        step_gen(r, g, codec, r.bit(), VOICE, r.below(3), s);
        do_step(L, s, false, X, a);
        do_step(L, s, false, Y, b);
    }
    for (int k = 0; k < burst; k++) {
        int lv = kind == 0 ? 4 : kind == 1 ? 5 : kind == 2 ? 2 : r.below(6);
        int pf = kind == 3 ? LOUD : kind == 4 ? SPECIAL : g.pick_prof(r);
        DGen gb(codec);
        step_gen(r, gb, codec, kind == 5 ? false : r.bit(), pf, lv, s);
        if (kind == 5) {
            s.errs2 = r.range(0, 100);
        }
        do_step(L, s, false, X, a);
    }
    if (r.chance(0.5)) { // the other decoder got clean speech meanwhile
        DGen gy(codec);
        for (int k = r.range(1, 20); k > 0; k--) {
            step_gen(r, gy, codec, r.bit(), VOICE, 0, s);
            do_step(L, s, false, Y, b);
        }
    }
    double d_er = fabs((double)X.p.errorRate - Y.p.errorRate), d_g = fabs((double)X.p.gamma - Y.p.gamma), rng = -1;
    if (!is_imbe(codec)) { // a state that is not half-rate is re-initialised by the first clean frame
        if (fabs(X.p.mutingThreshold - 0.096f) > 1e-6) {
            d_er = fabs((double)Y.p.errorRate);
            d_g = fabs((double)Y.p.gamma);
        }
        if (fabs(Y.p.mutingThreshold - 0.096f) > 1e-6) {
            d_er = fabs((double)X.p.errorRate);
            d_g = fabs((double)X.p.gamma);
        }
    }
    int N = r.chance(0.2) ? 400 : 60;
    int prof = r.below(3);
    for (int k = 0; k < N; k++) {
        bool frame = r.bit();
        step_gen(r, g, codec, frame, prof == 0 ? VOICE : prof == 1 ? STICKY : r.bit() ? VOICE : r.bit() ? LOUD : QUIET, 0, s);
        s.errs = s.errs2 = 0;
        if (get_b0(codec, s.d) >= voice_b0s(codec)) {
            continue;
        }
        mbe_parms xp = X.p, yp = Y.p;
        int pl = X.p.L;
        bool eqL = X.p.L == Y.p.L;
        do_step(L, s, false, X, a);
        do_step(L, s, false, Y, b);
        evals(1);
        if (strchr(a.str, 'R') || X.p.repeatCount || X.p.repeat || X.c.repeatCount) {
            viol("repeat", "%s %s: clean frame %d after the burst: text '%s', repeat count %d", L.name, cname[codec], k, a.str, X.p.repeatCount);
            return;
        }
        double er = fabs((double)X.p.errorRate - Y.p.errorRate);
        if (!(er <= 0.95 * d_er * (1 + 1e-5) + 1e-9)) {
            viol("error-rate", "%s %s: clean frame %d: error-rate difference %.9g after %.9g", L.name, cname[codec], k, er, d_er);
            return;
        }
        d_er = er;
        if (!is_imbe(codec)) {
            double gm = fabs((double)X.p.gamma - Y.p.gamma);
            if (!(gm <= 0.5 * d_g + 1e-5)) {
                viol("gain", "%s %s: clean frame %d: gain difference %.7g after %.7g", L.name, cname[codec], k, gm, d_g);
                return;
            }
            d_g = gm;
        }
        if (X.p.L != Y.p.L || memcmp(&X.p.w0, &Y.p.w0, 4)) {
            viol("pitch", "%s %s: clean frame %d: the decoders disagree on the pitch", L.name, cname[codec], k);
            return;
        }
        int Lc = X.p.L;
        double lo = 1e9, hi = -1e9;
        for (int l = 1; l <= Lc; l++) {
            double d = (double)X.p.log2Ml[l] - Y.p.log2Ml[l];
            lo = fmin(lo, d);
            hi = fmax(hi, d);
        }
        double rho = is_imbe(codec) ? (Lc <= 15 ? 0.4 : Lc <= 24 ? 0.03 * Lc - 0.05 : 0.7) : 0.65;
        if (rng >= 0 && eqL) {
            double mag = 1;
            for (int l = 1; l <= pl; l++) {
                mag = fmax(mag, fmax(fabs((double)xp.log2Ml[l]), fabs((double)yp.log2Ml[l])));
            }
            if (!(hi - lo <= rho * rng + 2e-5 * mag)) {
                viol("prediction", "%s %s: clean frame %d (L %d): spectral difference %.7g after %.7g, factor %.3f", L.name, cname[codec],
                     k, Lc, hi - lo, rng, rho);
                return;
            }
            CNT("contraction steps");
        }
        rng = hi - lo;
        sig(mix((uint64_t)(rng * 1e6), hashb(X.p.log2Ml, sizeof X.p.log2Ml)));
    }
    CNT("bursts");
    if (N == 400) {
        double worst = 0;
        for (int l = 1; l <= X.p.L; l++) {
            worst = fmax(worst, fabs((double)X.p.log2Ml[l] - Y.p.log2Ml[l]));
            if (X.p.Vl[l] != Y.p.Vl[l]) {
                worst = 99;
            }
        }
        evals(1);
        if (!(worst < 2e-3) || !(d_er < 1e-7 + 0.2 * pow(0.95, 300)) || strcmp(a.str, b.str)) {
            viol("converge", "%s %s: after %d clean frames the models still differ by %.4g, error rates by %.4g, text '%s' vs '%s'", L.name,
                 cname[codec], N, worst, d_er, a.str, b.str);
            return;
        }
        CNT("long recoveries");
    }
    if (cx.caseno < 4) {
        sample("%s: burst of %d calls; after %d clean frames spectral range %.3g, error rate %.3g", cname[codec], burst, N, rng, d_er);
    }
}
