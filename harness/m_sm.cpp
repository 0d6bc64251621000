// P02, P13-P15: decisions, bookkeeping and status text of the process calls, frame by frame against a state machine
// whose only numerical parts are the library's own public stage calls.
#include "gen.h"

static const char* kinds[] = {"speech frames", "muted frames", "comfort-noise resets", "erasures", "tones", "replays"};

// directed step: put the error counts next to the decision thresholds
static void aim(Rng& r, Step& s, const St& st) {
    if (s.frame) {
        return;
    }
    if (is_imbe(s.codec)) {
        static const int e[] = {0, 3, 4, 5, 6, 7, 10, 11, 40};
        s.errs2 = e[r.below(9)];
    } else {
        static const int e[] = {0, 2, 3, 4, 5, 6, 7, 20};
        s.errs2 = e[r.below(8)];
    }
    s.errs = r.below(s.errs2 < 3 ? s.errs2 + 1 : 4);
    (void)st;
}
// directed frame: choose the error counts of a real frame. Words other than the first carry data-bit errors so that the
// total lands next to the repeat threshold in force.
static void aim_frame(Rng& r, Step& s, const St& st) {
    uint8_t d[88];
    memcpy(d, s.d, 88);
    uint8_t clean[192];
    if (s.codec == I71) {
        uint8_t t[88];
        inv7100(d, t);
        encode(s.codec, t, clean);
    } else {
        encode(s.codec, d, clean);
    }
    double er = 0.95 * st.p.errorRate;
    int want;
    if (is_imbe(s.codec)) {
        want = (int)(10 + 40 * er) + r.range(-1, 2);
    } else {
        want = s.codec == A50 ? r.range(4, 7) : r.range(0, 5);
    }
    const Word* W;
    int n = words(s.codec, &W), C = frcols(s.codec);
    memcpy(s.fr, clean, sizeof clean);
    int e0 = r.below(4), tot = 0;
    for (int i = 0; i < n && tot < want; i++) {
        int g = W[i].kind == 1 || W[i].kind == 4;
        int cap = g ? 3 : W[i].kind ? 1 : 0, k = i == 0 ? e0 : cap;
        int db = W[i].kind == 4 ? 7 : g ? 12 : 11;
        for (int q = 0; q < k && tot < want; q++) {
            s.fr[W[i].row * C + W[i].hi - ((q * 3 + r.below(3)) % db)] ^= 1;
            tot++;
        }
    }
    FecOut o;
    fec_expect(s.codec, s.fr, o);
    memcpy(s.d, o.d, 88);
    s.errs = o.errs;
    s.errs2 = o.errs2;
    s.c4 = o.c4;
}

static void sm_case(Cx& cx, int codec, bool slowtol) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    bool fast = !strcmp(L.name, "fast");
    St st;
    st_init(L, st);
    if (is_imbe(codec)) {
        codec = r.bit() ? I72 : I71;
    }
    Hist h(codec, r.uni());
    int steps = cx.caseno % 1024 == 7 ? 10000 : 120;
    if (steps > 120) {
        CNT("long histories");
    }
    uint64_t trail = 0;
    int other = r.chance(0.3) ? r.below(4) : -1, other_left = 0;
    Hist ho(other < 0 ? 0 : other, 0.5);
    static thread_local SmOut o;
    static thread_local CallRes res;
    int burst = 0;
    for (int k = 0; k < steps; k++) {
        Step s;
        bool foreign = false;
        if (other >= 0 && (other_left > 0 || r.chance(0.03))) {
            if (other_left <= 0) {
                other_left = r.range(1, 5);
            }
            other_left--;
            ho.next(r, s);
            foreign = true;
        } else {
            h.next(r, s);
            if (burst <= 0 && r.chance(0.04)) {
                burst = r.range(2, 9);
            }
            if (burst > 0) { // a run of consecutive bad frames, to drive the repeat counters
                burst--;
                if (!s.frame) {
                    s.errs2 = r.range(6, 14);
                    s.errs = 3;
                } else if (r.chance(0.8)) {
                    DGen g(codec);
                    step_gen(r, g, codec, true, VOICE, is_imbe(codec) ? 4 : 5, s);
                }
                if (is_imbe(codec) && r.chance(0.5) && !s.frame) {
                    set_b0(codec, s.d, r.range(208, 255));
                }
            } else if (r.chance(0.3)) {
                if (s.frame && is_imbe(codec) && r.chance(0.15)) {
                    st.p.errorRate = 0.12582f;
                }
                if (s.frame) {
                    aim_frame(r, s, st);
                } else {
                    aim(r, s, st);
                }
            }
        }
        if (!s.frame && r.chance(0.015)) { // counts no frame can have, but a caller may report
            s.errs2 = r.range(15, 580);
            CNT("extreme reported counts");
        }
        // put the stored error rate exactly on a decision threshold: 'above' must not include 'equal', 'at least' must
        bool on_mute = false, on_rep = false;
        if (!foreign && is_imbe(codec) && !fast) {
            float v;
            if (s.frame && s.errs >= 2 && s.errs2 == 15 && r.chance(0.7)) {
                if (find_rate(15, 0.125f, v)) {
                    st.p.errorRate = v;
                    on_rep = imbe_b0(s.d) <= 207;
                }
            } else if (r.chance(0.04) && find_rate(s.errs2, 0.0875f, v)) {
                st.p.errorRate = v;
                on_mute = true;
            }
        }
        if (s.codec == A50 && r.chance(0.05)) { // an invalid tone index is replayed unless the stored model is out of repeats
            st.p.repeatCount = r.range(2, 5);
            CNT("stored repeat count set by the caller");
        }
        uint32_t seed = r.u32() | 1;
        St pre = st;
        L.f_setThreadRngSeed(seed);
        sm_step(L, s, pre, o);
        L.f_setThreadRngSeed(seed);
        bool sh = r.chance(0.2);
        do_step(L, s, sh, st, res);
        evals(1);
        if (res.errs != s.errs || res.errs2 != s.errs2) {
            viol("error-counts", "%s %s step %d: call reports %d/%d, want %d/%d", L.name, cname[s.codec], k, res.errs,
                 res.errs2, s.errs, s.errs2);
            return;
        }
        if (o.amb) {
            CNT("undecidable by rounding (skipped)");
            trail = mix(trail, 99);
            continue;
        }
        if (strcmp(res.str, o.str)) {
            viol("text", "%s %s %s step %d: text '%s', want '%s' (prev repeat %d, error rate %.5f, errs %d/%d)", L.name,
                 cname[s.codec], s.frame ? "frame" : "data", k, res.str, o.str, pre.p.repeatCount, pre.p.errorRate, s.errs,
                 s.errs2);
            return;
        }
        DiffBuf db;
        static const char* nm[] = {"current", "previous", "enhanced"};
        const mbe_parms* A[] = {&st.c, &st.p, &st.e};
        const mbe_parms* B[] = {&o.s.c, &o.s.p, &o.s.e};
        for (int q = 0; q < 3; q++) {
            // after an output of comfort noise or a tone the working copy is not part of any later decision except
            // through the stored states, but it is still what the caller sees
            if (const char* t = diff_parms(*A[q], *B[q], false, db, fast ? 1e-3 : 1e-4, fast ? 1e-4 : 1e-5, 1e-2, 0.5)) {
                viol("state", "%s %s %s step %d (%s, prev repeat %d, text '%s'): %s state differs: %s", L.name,
                     cname[s.codec], s.frame ? "frame" : "data", k, kinds[o.kind], pre.p.repeatCount, res.str, nm[q], t);
                return;
            }
        }
        for (int i = 0; i < 160; i++) {
            double a = sh ? res.sh[i] : res.a[i];
            double b = sh ? (double)(int)(fmax(-31128.65, fmin(31128.65, o.a[i] * 7.0))) : o.a[i];
            if (!(fabs(a - b) <= (fast ? 1.0 : 0.1) + (sh ? 1.01 : 0) + 1e-3 * fabs(b))) {
                viol("audio", "%s %s step %d (%s): sample %d is %.6g, want %.6g", L.name, cname[s.codec], k, kinds[o.kind], i, a,
                     b);
                return;
            }
        }
        // is this comfort noise? decided independently of the library's own mute predicate
        {
            Comfort cn{Comfort::init(seed, false)};
            int same = 0;
            for (int i = 0; i < 160; i++) {
                double x = cn.next();
                double y = sh ? (double)res.sh[i] : (double)res.a[i], z = sh ? trunc(x * 7) : x;
                same += fabs(y - z) < (sh ? 1.01 : 1e-3);
            }
            bool want = o.kind == 1 || o.kind == 2 || o.kind == 3;
            bool reuse = o.kind == 5 && same == 160; // a replay of a muted frame is itself muted
            if ((same == 160) != want && !reuse && !(sh && !want)) {
                viol("mute", "%s %s step %d (%s, prev repeat %d, error rate %.5f): %s", L.name, cname[s.codec], k,
                     kinds[o.kind], pre.p.repeatCount, st.c.errorRate, want ? "output is not comfort noise" : "speech replaced by comfort noise");
                return;
            }
        }
        CNT(kinds[o.kind]);
        if (on_mute && o.kind == 0) {
            CNT("frames exactly at the mute threshold");
        }
        if (on_rep && o.repeat) {
            CNT("frames exactly at the repeat threshold");
        }
        if (!!L.f_requiresMuting(&st.c) != (st.c.errorRate > st.c.mutingThreshold)
            || !!L.f_isMaxFrameRepeat(&st.c) != (st.c.repeatCount >= 4)) {
            viol("predicate", "%s %s step %d: rate %.6f threshold %.4f repeats %d: mute? %d repeat? %d", L.name, cname[s.codec], k,
                 st.c.errorRate, st.c.mutingThreshold, st.c.repeatCount, L.f_requiresMuting(&st.c), L.f_isMaxFrameRepeat(&st.c));
            return;
        }
        if (o.repeat) {
            CNT("repeated frames");
        }
        if (pre.p.repeatCount >= 4 && is_imbe(s.codec) && o.repeat) {
            CNT("headroom resets");
        }
        if (foreign) {
            CNT("steps of another codec");
        }
        trail = mix(trail, (uint64_t)(o.kind * 64 + s.codec * 8 + s.frame * 4 + o.repeat * 2) + hashs(res.str));
        // distinct behaviour: short decision context
        sig(mix((uint64_t)o.kind + 10 * (uint64_t)s.codec + 100 * (uint64_t)s.frame + 1000 * (uint64_t)o.repeat,
                mix((uint64_t)pre.p.repeatCount * 64 + (uint64_t)s.errs2, (uint64_t)(pre.p.errorRate * 400) * 8 + (uint64_t)s.errs)));
        if (k == 30 && cx.caseno < 3) {
            sample("%s step 30: errs %d/%d prev repeat %d rate %.4f -> '%s' %s, repeat count %d", cname[s.codec], s.errs, s.errs2,
                   pre.p.repeatCount, pre.p.errorRate, res.str, kinds[o.kind], st.p.repeatCount);
        }
    }
    sig(trail);
    (void)slowtol;
}
MODE(smimbe) { sm_case(cx, I72, false); }
MODE(sm2450) { sm_case(cx, A50, false); }
MODE(sm2400) { sm_case(cx, A00, false); }

// P02: exact buffers for the status text, every error count, all entry points
MODE(text) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    int codec = (int)(cx.caseno & 3);
    St st;
    st_init(L, st);
    Hist h(codec, 0.5);
    static thread_local SmOut o;
    for (int k = 0; k < 80; k++) {
        Step s;
        h.next(r, s);
        if (!s.frame) {
            int x = r.below(10);
            s.errs2 = x < 5 ? r.below(12) : x < 8 ? r.below(60) : r.chance(0.05) ? r.range(300, 5000) : r.range(60, 300);
            if (x == 9) { // consecutive bad frames
                s.errs2 = r.range(7, 20);
            }
            s.errs = r.below(5);
        }
        if (r.chance(0.15)) {
            aim_frame(r, s, st);
            s.frame = true;
        }
        L.f_setThreadRngSeed(7);
        sm_step(L, s, st, o);
        L.f_setThreadRngSeed(7);
        size_t cap = (size_t)s.errs2 + 3;
        GBuf str(cap), fr((size_t)frsz(codec)), d((size_t)nbits(codec)), a(160 * 4);
        memset(str.p, r.bit() ? 'M' : 0, cap);
        memcpy(fr.p, s.fr, (size_t)frsz(codec));
        memcpy(d.p, s.d, (size_t)nbits(codec));
        bool sh = r.bit();
        int e0 = s.errs, e2 = s.errs2;
        if (s.frame) {
            e0 = e2 = r.below(1000); // outputs: prior contents must not matter
            proc_frame(L, codec, sh, a.p, &e0, &e2, str.c(), fr.c(), d.c(), &st.c, &st.p, &st.e, r.below(70));
        } else {
            proc_data(L, codec, sh, a.p, &e0, &e2, str.c(), d.c(), &st.c, &st.p, &st.e, r.below(70));
        }
        evals(1);
        if (!str.ok()) {
            viol("text-bound", "%s %s: writes outside errs2+3 = %zu bytes (errs2 %d)", L.name, cname[codec], cap, s.errs2);
            return;
        }
        if (!memchr(str.p, 0, cap)) {
            viol("text-unterminated", "%s %s: no NUL within errs2+3 = %zu bytes", L.name, cname[codec], cap);
            return;
        }
        if (e2 != s.errs2) {
            viol("text-count", "%s %s: reported %d errors, want %d", L.name, cname[codec], e2, s.errs2);
            return;
        }
        if (!o.amb && strcmp(str.c(), o.str)) {
            viol("text", "%s %s %s errs %d/%d: '%.300s', want '%.300s'", L.name, cname[codec], s.frame ? "frame" : "data",
                 s.errs, s.errs2, str.c(), o.str);
            return;
        }
        const char* m = str.c() + s.errs2;
        CNT("status texts");
        cnt_add(*m ? m : "(no marker)", 1);
        sig(mix(hashs(m), (uint64_t)(s.errs2 * 16 + codec * 4 + s.frame * 2 + sh)));
        if (k == 9 && cx.caseno < 4) {
            sample("%s %s errs2=%d -> '%s'", cname[codec], s.frame ? "frame" : "data", s.errs2, str.c());
        }
    }
}

// P28 inside the process calls: the stored previous model is the decoded (or repeated) model before enhancement, the stored
// enhanced model is what enhancement and smoothing made of it. The library's public enhancement is applied to the former,
// the independent smoothing rules follow, and the result is compared with the latter.
MODE(smpath) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    double fe = !strcmp(L.name, "fast") ? 3 : 1;
    int codec = (int)(cx.caseno & 3);
    St st;
    st_init(L, st);
    Hist h(codec, r.uni());
    static thread_local SmOut o;
    static thread_local CallRes res;
    for (int k = 0; k < 150; k++) {
        Step s;
        h.next(r, s);
        if (r.chance(0.5)) {
            if (s.frame) {
                aim_frame(r, s, st);
            } else {
                static const int tots[] = {0, 1, 3, 4, 5, 5, 6, 7, 8, 12};
                s.errs2 = tots[r.below(10)];
                s.errs = r.below(s.errs2 < 3 ? s.errs2 + 1 : 3);
            }
        }
        // stored values on which the rules depend: rate of the previous frame, energy and limit
        if (r.chance(0.3)) {
            static const float ers[] = {0, 0.001f, 0.005f, 0.006f, 0.009f, 0.0125f, 0.014f, 0.03f, 0.08f};
            st.p.errorRate = ers[r.below(9)];
        }
        if (r.chance(0.2)) {
            static const float le[] = {0, 9999, 10000, 12000, 75000, 1e6f, 1e9f};
            st.e.localEnergy = le[r.below(7)];
        }
        if (r.chance(0.2)) {
            static const int th[] = {-5, 0, 1, 500, 5000, 20480, 26480, 90000};
            st.e.amplitudeThreshold = th[r.below(8)];
        }
        if (r.chance(0.2)) { // left over in the working copy by earlier calls: must not matter
            st.c.errorCount4 = r.below(20);
            st.c.errorCountTotal = r.below(40);
            st.c.errorRate = (float)r.uni(0, 0.2);
            st.c.localEnergy = (float)r.uni(0, 1e6);
            st.c.amplitudeThreshold = r.below(100000);
        }
        St pre = st;
        uint32_t seed = r.u32() | 1;
        L.f_setThreadRngSeed(seed);
        sm_step(L, s, pre, o);
        L.f_setThreadRngSeed(seed);
        do_step(L, s, r.bit(), st, res);
        evals(1);
        if (o.amb || o.kind > 1) {
            continue;
        }
        bool imbe = is_imbe(s.codec);
        if (!imbe && fabs(pre.p.mutingThreshold - 0.096f) > 1e-6) {
            CNT("codec switches (skipped)");
            continue;
        }
        mbe_parms m = st.p;
        if (!o.repeat) {
            m.errorCountTotal = s.errs2;
            m.errorCount4 = imbe && s.frame ? s.c4 : 0;
            m.errorRate = (float)(0.95 * (double)pre.p.errorRate + (imbe ? 0.000365 : 0.001064) * s.errs2);
            cnt_add(m.errorCount4 ? "fourth-word errors" : "no fourth-word errors", 1);
        } else {
            CNT("repeated frames smoothed");
        }
        double rm0 = 0;
        for (int l = 1; l <= m.L; l++) {
            rm0 += (double)m.Ml[l] * m.Ml[l];
        }
        L.f_spectralAmpEnhance(&m);
        Smooth w;
        smooth(m, pre.e, rm0, w);
        if (fabs(m.errorRate - 0.005) < 1e-7 || fabs(m.errorRate - 0.0125) < 1e-7) {
            continue;
        }
        const mbe_parms& g = st.e;
        const char* what = s.frame ? "frame" : "data";
        if (g.L != m.L) {
            viol("path-model", "%s %s %s step %d: %d bands stored, %d decoded", L.name, cname[s.codec], what, k, g.L, m.L);
            return;
        }
        if (!feq(g.localEnergy, w.energy, 1e-5 * fe, 0)) {
            viol("path-energy", "%s %s %s step %d: local energy %.8g, want %.8g (before %.8g)", L.name, cname[s.codec], what, k,
                 (double)g.localEnergy, w.energy, (double)pre.e.localEnergy);
            return;
        }
        if (g.amplitudeThreshold != w.Tm) {
            viol("path-limit", "%s %s %s step %d: amplitude limit %d, want %d (errs2 %d rate %.6f, before %d)", L.name,
                 cname[s.codec], what, k, g.amplitudeThreshold, w.Tm, s.errs2, (double)m.errorRate, pre.e.amplitudeThreshold);
            return;
        }
        int forced = 0;
        for (int l = 1; l <= m.L; l++) {
            if (!w.Vamb[l] && g.Vl[l] != w.V[l]) {
                viol("path-voicing", "%s %s %s step %d (errs2 %d, word four %d, rate %.6f): band %d amplitude %.7g against %.7g: voicing %d -> %d",
                     L.name, cname[s.codec], what, k, s.errs2, m.errorCount4, (double)m.errorRate, l, (double)m.Ml[l], w.VM,
                     m.Vl[l], g.Vl[l]);
                return;
            }
            forced += w.V[l] != m.Vl[l];
            if (!w.scale_amb && !feq(g.Ml[l], w.M[l], 3e-5 * fe, 1e-6)) {
                viol("path-amplitude", "%s %s %s step %d: amplitude %d %.8g, want %.8g (sum %.6g limit %d)", L.name,
                     cname[s.codec], what, k, l, (double)g.Ml[l], w.M[l], w.Am, w.Tm);
                return;
            }
        }
        CNT("frames smoothed in the process calls");
        if (forced) {
            CNT("frames with bands forced voiced");
            cnt_add(m.errorCount4 ? "forced, second formula" : "forced, other", 1);
        }
        if (w.scaled) {
            CNT("frames scaled to the limit");
        }
        sig(mix((uint64_t)w.Tm, mix((uint64_t)forced, (uint64_t)(codec * 4 + s.frame * 2 + o.repeat) + 64 * (uint64_t)s.errs2)));
        if (k == 9 && cx.caseno < 4) {
            sample("%s %s errs2 %d rate %.5f: %d bands forced, limit %d", cname[s.codec], what, s.errs2, (double)m.errorRate, forced, w.Tm);
        }
    }
}
