// P23-P28: tones, comfort noise, unvoiced spectrum, speech synthesis, enhancement, smoothing.
#include "gen.h"

static bool is_fast(const Lib& L) { return !strcmp(L.name, "fast"); }

// ------------------------------------------------------------------ random models
static void rand_amps(Rng& r, mbe_parms& m, double lo, double hi, int shape) {
    double base = exp2(r.uni(lo, hi));
    for (int l = 0; l <= 56; l++) {
        double v;
        switch (shape) {
            case 0: v = base * exp2(r.uni(-3, 3)); break;
            case 1: v = base; break;
            case 2: v = base * exp2(-l * 0.2); break;
            case 3: v = base * (l % 7 == 3 ? 50 : 1); break;
            case 4: v = r.chance(0.3) ? 0 : base * exp2(r.uni(-4, 4)); break;
            case 5: v = base * exp2(r.gauss() * 2.5); break;
            default: v = base * (1 + 0.9 * sin(l * 0.7)); break;
        }
        m.Ml[l] = (float)v;
        m.log2Ml[l] = v > 0 ? (float)log2(v) : 0.0f;
    }
}
static void rand_pitch(Rng& r, mbe_parms& m) {
    int k = r.below(4);
    if (k == 0) {
        int b0 = r.below(208);
        m.w0 = (float)(4 * PI / (b0 + 39.5));
        m.L = imbe_L(b0);
        m.K = imbe_K(m.L);
    } else if (k == 1) {
        int b0 = r.below(120);
        m.w0 = (float)(2 * PI * (double)tab::a2450::AmbeW0table[b0]);
        m.L = (int)tab::a2450::AmbeLtable[b0];
    } else if (k == 2) {
        int b0 = r.below(126);
        m.w0 = (float)(2 * PI * exp2(-4.311767578125 - 2.1336e-2 * (b0 + 0.5)));
        m.L = (int)tab::a2400::AmbePlusLtable[b0];
    } else {
        m.w0 = (float)r.uni(0.05, 0.35);
        m.L = (int)fmin(56, fmax(9, PI / m.w0));
        if (r.chance(0.1)) { // the erasure model, silence
            m.w0 = r.bit() ? 0.0f : (float)(PI / 32 * 2 * PI);
            m.L = m.w0 == 0 ? 9 : r.bit() ? 14 : 15;
        }
    }
}
static void rand_noise_state(Rng& r, mbe_parms& m) {
    if (r.chance(0.15)) {
        m.noiseSeed = -1.0f;
    } else {
        uint32_t s = (uint32_t)r.below(53125);
        for (int i = 0; i < 96; i++) {
            m.noiseOverlap[i] = (float)s;
            s = lcg(s);
        }
        m.noiseSeed = (float)(r.chance(0.8) ? s : (uint32_t)r.below(53125));
    }
}
static void rand_model(Rng& r, mbe_parms& m) {
    memset(&m, 0, sizeof m);
    rand_pitch(r, m);
    rand_amps(r, m, -2, 9, r.below(7));
    int v = r.below(5);
    bool neg = r.chance(0.1); // phases below zero, as a caller's own model may hold
    for (int l = 0; l <= 56; l++) {
        m.Vl[l] = v == 0 ? 0 : v == 1 ? 1 : v == 2 ? l < m.L / 2 : r.bit();
        m.PSIl[l] = (float)(neg ? r.uni(-60, 60) : r.uni(0, 3000));
        m.PHIl[l] = (float)r.uni(-10, 3000);
        if (r.chance(0.2)) {
            m.PHIl[l] = m.PSIl[l];
        }
    }
    rand_noise_state(r, m);
    for (int i = 0; i < 256; i++) {
        m.previousUw[i] = (float)(r.gauss() * 200);
    }
    m.localEnergy = (float)exp2(r.uni(10, 24));
    m.amplitudeThreshold = 20480;
    m.mutingThreshold = r.bit() ? 0.0875f : 0.096f;
}

// the bookkeeping a model carries along: none of it may colour the sound of a frame that is not muted
static void rand_rest(Rng& r, mbe_parms& m) {
    m.K = r.below(15);
    m.repeat = r.below(3);
    m.repeatCount = r.below(4);
    m.errorCountTotal = r.below(r.chance(0.1) ? 60 : 20);
    m.errorCount4 = r.below(r.chance(0.2) ? 8 : 2);
    m.errorRate = (float)r.uni(0, m.mutingThreshold * 0.99);
    m.gamma = (float)r.uni(-4, 14);
    m.un = (int)r.u32();
    m.swn = (int)r.u32();
    for (int l = 0; l <= 56; l++) {
        m.log2Ml[l] = (float)r.uni(-4, 14);
    }
}

// ------------------------------------------------------------------ reference synthesis of one frame
// cur/prev: state before the call; post: the library's state after it. Returns a violation description or null.
struct SynRef {
    double out[160];
    double tol[160];
    bool skip;
    double maxuw;
    int voiced, interp, unv;
};
static void syn_ref(const mbe_parms& pre_prev, const mbe_parms& pc, const mbe_parms& pp, const mbe_parms& cur0,
                    const Noise& nz, const double* Uw, double uwtol, SynRef& o) {
    // pc/pp: post-call current and previous (amplitudes, voicing, phases); cur0: pre-call current
    memset(&o, 0, sizeof o);
    (void)nz;
    double cw = cur0.w0, pw = pre_prev.w0;
    int maxl = cur0.L > pre_prev.L ? cur0.L : pre_prev.L;
    for (int l = 1; l <= maxl; l++) {
        bool cv = l <= cur0.L ? pc.Vl[l] == 1 : true, pv = l <= pre_prev.L ? pre_prev.Vl[l] == 1 : true;
        double cm = l <= cur0.L ? pc.Ml[l] : 0, pm = l <= pre_prev.L ? pre_prev.Ml[l] : 0;
        if (!cv && !pv) {
            continue;
        }
        double cphi = pc.PHIl[l], pphi = pp.PHIl[l];
        o.voiced++;
        double dw = fabs(cw - pw);
        if (l < 8 && cv && pv && fabs(dw - 0.1 * cw) < 1e-6) {
            o.skip = true;
        }
        double mx = fmax(fabs(cm), fabs(pm));
        if (l < 8 && cv && pv && dw < 0.1 * cw) {
            o.interp++;
            double dphi = cphi - pphi - (pw + cw) * l * 160 / 2;
            double turns = (dphi + PI) / (2 * PI);
            if (fabs(turns - floor(turns + 0.5)) < 4e-4) {
                o.skip = true;
            }
            double dwl = (dphi - 2 * PI * floor(turns)) / 160;
            double pherr = 3e-7 * (fabs(cphi) + fabs(pphi) + (pw + cw) * l * 160) + 1e-5;
            for (int n = 0; n < 160; n++) {
                double th = pphi + (pw * l + dwl) * n + (cw - pw) * l * n * n / 320.0;
                double a = pm + n / 160.0 * (cm - pm);
                o.out[n] += 2 * a * cos(th);
                o.tol[n] += 2 * mx * (pherr + 3e-7 * fabs(th));
            }
        } else {
            if (pv && pm != 0) {
                double pherr = 6e-5 + 3e-7 * fabs(pphi);
                for (int n = 0; n < 160; n++) {
                    o.out[n] += 2 * win_ws(n + 160) * pm * cos(pphi + pw * l * n);
                    o.tol[n] += 2 * fabs(pm) * pherr;
                }
            }
            if (cv && cm != 0) {
                double pherr = 6e-5 + 3e-7 * (fabs(cphi) + cw * l * 160);
                for (int n = 0; n < 160; n++) {
                    o.out[n] += 2 * win_ws(n) * cm * cos(cphi + cw * l * (n - 160));
                    o.tol[n] += 2 * fabs(cm) * pherr;
                }
            }
        }
    }
    double mu = 0;
    for (int i = 0; i < 256; i++) {
        mu = fmax(mu, fabs((double)pre_prev.previousUw[i]));
    }
    wola(pre_prev.previousUw, Uw, o.out);
    for (int n = 0; n < 160; n++) {
        o.tol[n] += uwtol * 1.5 + 2e-6 * mu + 2e-3;
        o.out[n] = fmax(-CLIP, fmin(CLIP, o.out[n]));
    }
}

// checks phases and noise of one unmuted synthesis call; returns false after a violation
static bool check_phases(Lib& L, const mbe_parms& cur0, const mbe_parms& prev0, const mbe_parms& pc, const mbe_parms& pp,
                         const Noise& nz, const char* who, int k) {
    int uv = 0;
    for (int l = 0; l <= cur0.L; l++) {
        uv += pc.Vl[l] == 0;
    }
    double fe = is_fast(L) ? 3 : 1;
    for (int l = 1; l <= 56; l++) {
        double w = fmod((double)prev0.PSIl[l], 2 * PI);
        if (w < 0) {
            w += 2 * PI;
        }
        // stored previous phase: same angle
        double da = (double)pp.PSIl[l] - w;
        da -= 2 * PI * floor(da / (2 * PI) + 0.5);
        if (fabs(da) > 1e-3 + 2e-7 * fabs(prev0.PSIl[l])) {
            viol("prev-phase", "%s %s step %d: previous phase of harmonic %d moved by %.5f rad", L.name, who, k, l, da);
            return false;
        }
        double adv = ((double)prev0.w0 + cur0.w0) * l * 80;
        double want = w + adv, d = (double)pc.PSIl[l] - want;
        d -= 2 * PI * floor(d / (2 * PI) + 0.5);
        double tol = fe * (5e-4 + 4e-7 * (fabs(want) + fabs(prev0.PSIl[l])));
        if (fabs(d) > tol) {
            viol("phase-advance", "%s %s step %d: harmonic %d advanced to %.6f, want %.6f (mod 2pi)", L.name, who, k, l,
                 (double)pc.PSIl[l], want);
            return false;
        }
        double jit = 0;
        if (l > cur0.L / 4) {
            jit = uv * (2 * PI / 53125 * nz.buf[l] - PI) / cur0.L;
        }
        d = (double)pc.PHIl[l] - pc.PSIl[l] - jit;
        d -= 2 * PI * floor(d / (2 * PI) + 0.5);
        if (fabs(d) > tol + 2e-6 * (1 + fabs(jit))) {
            viol("phase-jitter", "%s %s step %d: harmonic %d (L %d, %d unvoiced) phase offset %.6f, want %.6f", L.name, who, k, l,
                 cur0.L, uv, (double)pc.PHIl[l] - pc.PSIl[l], jit);
            return false;
        }
    }
    return true;
}

// the whole oracle for one call of synthesizeSpeechf; mode bits: 1 audio, 2 phases, 4 spectrum, 8 noise
static bool check_synth(Lib& L, const mbe_parms& cur0, const mbe_parms& prev0, double cold, int what, const char* who, int k,
                        mbe_parms& pc, mbe_parms& pp, float* out) {
    pc = cur0;
    pp = prev0;
    for (int i = 0; i < 160; i++) {
        out[i] = NAN;
    }
    L.f_synthesizeSpeechf(out, &pc, &pp, 3);
    evals(1);
    bool muted = cur0.repeatCount >= 4 || (fabs(cur0.mutingThreshold - 0.096) > 1e-5 && cur0.errorRate > cur0.mutingThreshold);
    if (muted) {
        CNT("muted frames");
        if (what & 8) {
            if (memcmp(&pc.noiseSeed, &cur0.noiseSeed, 4) || memcmp(pc.noiseOverlap, cur0.noiseOverlap, sizeof pc.noiseOverlap)
                || memcmp(pc.previousUw, cur0.previousUw, sizeof pc.previousUw)) {
                viol("noise-muted", "%s %s step %d: a muted frame moved the noise state", L.name, who, k);
                return false;
            }
        }
        return true;
    }
    Noise nz;
    noise(cur0, cold, nz);
    if (what & 8) {
        if (pc.noiseSeed != nz.seed) {
            viol("noise-seed", "%s %s step %d: generator went from %.0f to %.0f, want %.0f", L.name, who, k, (double)cur0.noiseSeed,
                 (double)pc.noiseSeed, (double)nz.seed);
            return false;
        }
        if (memcmp(pc.noiseOverlap, nz.ov, sizeof nz.ov)) {
            viol("noise-overlap", "%s %s step %d: overlap after the frame is not the tail of the frame's noise", L.name, who, k);
            return false;
        }
        CNT(cur0.noiseSeed < 0 ? "cold starts" : "noise continuations");
    }
    if ((what & 2) && !check_phases(L, cur0, prev0, pc, pp, nz, who, k)) {
        return false;
    }
    Bands bd;
    double Uw[256], smax;
    unvoiced(nz, cur0.w0, cur0.L, pc.Vl, pc.Ml, Uw, bd, &smax);
    if (bd.amb) {
        CNT("band edges undecidable by rounding (skipped)");
        return true;
    }
    // tolerance of the unvoiced segment: float FFT error against the weakest scaled band
    double uwtol = 0;
    int nunv = 0;
    {
        double x[256], re[129], im[129];
        for (int i = 0; i < 256; i++) {
            x[i] = nz.buf[i] * win_uv(i - 128);
        }
        dft256(x, re, im);
        double fmaxv = 0;
        for (int b = 0; b <= 128; b++) {
            fmaxv = fmax(fmaxv, hypot(re[b], im[b]));
        }
        for (int l = 1; l <= cur0.L; l++) {
            if (pc.Vl[l] == 0 && bd.b[l] > bd.a[l]) {
                double num = 0;
                int n = bd.b[l] - bd.a[l];
                for (int b = bd.a[l]; b < bd.b[l]; b++) {
                    num += re[b] * re[b] + im[b] * im[b];
                }
                double s = num > 1e-10 ? 146.17696 * fabs((double)pc.Ml[l]) / sqrt(num / n) : 0;
                uwtol += s * n * 2 / 256.0 * 1e-6 * fmaxv;
                nunv++;
            }
        }
        uwtol += 1e-6 * smax;
    }
    if (what & 4) {
        // band powers of the segment the library stored
        double x[256], re[129], im[129];
        for (int i = 0; i < 256; i++) {
            x[i] = pc.previousUw[i];
        }
        dft256(x, re, im);
        double mx = 0;
        for (int b = 0; b <= 128; b++) {
            mx = fmax(mx, hypot(re[b], im[b]));
        }
        bool used[129] = {false};
        for (int l = 1; l <= cur0.L; l++) {
            if (pc.Vl[l] != 0 || bd.b[l] <= bd.a[l] || cur0.noiseSeed < 0) {
                continue;
            }
            double num = 0;
            for (int b = bd.a[l]; b < bd.b[l]; b++) {
                num += re[b] * re[b] + im[b] * im[b];
                used[b] = true;
            }
            double rms = sqrt(num / (bd.b[l] - bd.a[l])), want = 146.17696 * fabs((double)pc.Ml[l]); // smoothing leaves negative amplitudes after extreme counts
            if (fabs(rms - want) > 2e-3 * want + 2e-5 * mx + 1e-3) {
                viol("band-energy", "%s %s step %d: unvoiced band %d (bins %d-%d) has rms magnitude %.6g, want %.6g", L.name, who, k,
                     l, bd.a[l], bd.b[l] - 1, rms, want);
                return false;
            }
            CNT("unvoiced bands");
        }
        for (int b = 0; b <= 128; b++) {
            if (!used[b] && hypot(re[b], im[b]) > 2e-5 * mx + 1e-3) {
                viol("band-leak", "%s %s step %d: bin %d outside every unvoiced band carries %.6g (peak %.6g)", L.name, who, k, b,
                     hypot(re[b], im[b]), mx);
                return false;
            }
        }
        for (int i = 0; i < 256; i++) {
            if (!(fabs(pc.previousUw[i] - Uw[i]) <= 3 * uwtol + 2e-3)) {
                viol("unvoiced-segment", "%s %s step %d: unvoiced segment sample %d is %.6g, want %.6g (tolerance %.3g)", L.name, who,
                     k, i, (double)pc.previousUw[i], Uw[i], 3 * uwtol + 2e-3);
                return false;
            }
        }
        if (nunv) {
            CNT("frames with unvoiced bands");
        } else {
            CNT("frames without unvoiced bands");
        }
    }
    if (what & 1) {
        SynRef o;
        syn_ref(prev0, pc, pp, cur0, nz, Uw, uwtol * 3, o);
        if (o.skip) {
            CNT("phase wraps undecidable by rounding (skipped)");
            return true;
        }
        double f = is_fast(L) ? 3 : 1, worst = 0;
        for (int n = 0; n < 160; n++) {
            double d = fabs(out[n] - o.out[n]);
            if (!(d <= f * o.tol[n])) {
                viol("audio", "%s %s step %d: sample %d is %.7g, want %.7g (tolerance %.3g; %d voiced, %d interpolated, w0 %.5f->%.5f, L %d->%d)",
                     L.name, who, k, n, (double)out[n], o.out[n], f * o.tol[n], o.voiced, o.interp, (double)prev0.w0,
                     (double)cur0.w0, prev0.L, cur0.L);
                return false;
            }
            worst = fmax(worst, d / (f * o.tol[n]));
        }
        CNTN("voiced harmonics", o.voiced);
        CNTN("interpolated harmonics", o.interp);
        if (worst > 0.5) {
            CNT("frames using more than half the tolerance");
        }
        CNT(cur0.L > prev0.L ? "harmonics appear" : cur0.L < prev0.L ? "harmonics disappear" : "same harmonic count");
    }
    return true;
}

// P25/P26 workload: random model pairs, chains of random models, and models produced by decoding
static void syn_case(Cx& cx, int what) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    static float out[160];
    static mbe_parms cur, prev, pc, pp, last;
    int kind = (int)(cx.caseno % 3);
    if (kind == 0) { // independent pairs
        for (int k = 0; k < 40; k++) {
            rand_model(r, cur);
            rand_model(r, prev);
            if (r.chance(0.5)) { // stable pitch
                prev.L = cur.L;
                prev.w0 = cur.w0 * (float)r.uni(0.88, 1.12);
            }
            if (k && r.chance(0.25)) { // the current model of the call before, with one thing changed
                float w = cur.w0;
                cur.w0 = last.w0;
                cur.L = last.L;
                memcpy(cur.Vl, last.Vl, sizeof cur.Vl);
                if (r.bit()) {
                    memcpy(cur.Ml, last.Ml, sizeof cur.Ml);
                }
                switch (r.below(4)) {
                    case 0: cur.L = r.range(9, cur.w0 > 0 ? (int)fmin(56, fmax(9, PI / cur.w0)) : 56); break;
                    case 1: cur.w0 = w; break;
                    case 2: cur.Vl[r.range(1, cur.L)] ^= 1; break;
                    default: break;
                }
                if (cur.w0 > 0) {
                    cur.L = (int)fmin(cur.L, fmax(9, PI / cur.w0));
                }
                for (int l = 1; l <= cur.L; l++) {
                    if (!(cur.Ml[l] > 0)) {
                        cur.Ml[l] = (float)exp2(r.uni(0, 8));
                    }
                }
                CNT("models close to the one before");
            }
            last = cur;
            if (r.chance(0.4)) {
                rand_rest(r, cur);
                CNT("models with bookkeeping");
            }
            if (r.chance(0.4)) {
                rand_rest(r, prev);
            }
            if (r.chance(0.15)) {
                cur.errorRate = (float)r.uni(0, 0.2);
                cur.errorCountTotal = r.below(20);
                cur.repeatCount = r.below(6);
            }
            uint32_t seed = r.u32();
            double cold = 3147;
            L.f_setThreadRngSeed(seed);
            cold = (seed ? seed : 0x6d25357bu) % 53125u;
            if (!check_synth(L, cur, prev, cold, what, "pair", k, pc, pp, out)) {
                return;
            }
            sig(mix(hashb(out, sizeof out), (uint64_t)k));
        }
    } else if (kind == 1) { // chain with continuous phases
        rand_model(r, prev);
        for (int k = 0; k < 40; k++) {
            mbe_parms nxt;
            rand_model(r, nxt);
            cur = prev;
            bool stay = r.chance(0.6);
            if (!stay) {
                cur.w0 = nxt.w0;
                cur.L = nxt.L;
            } else {
                cur.w0 *= (float)r.uni(0.95, 1.05);
                if (cur.w0 > 0) {
                    cur.L = (int)fmin(56, fmax(9, 0.9254 * floor(PI / cur.w0 + 0.25)));
                }
            }
            memcpy(cur.Ml, nxt.Ml, sizeof cur.Ml);
            memcpy(cur.Vl, nxt.Vl, sizeof cur.Vl);
            if (r.chance(0.4)) {
                rand_rest(r, cur);
            }
            if (k == 0) {
                cur.noiseSeed = -1;
            }
            L.f_setThreadRngSeed(77 + (uint32_t)k);
            if (!check_synth(L, cur, prev, 77 + k, what, "chain", k, pc, pp, out)) {
                return;
            }
            sig(mix(hashb(out, sizeof out), (uint64_t)k));
            prev = pc;
        }
    } else { // models obtained by decoding a stream
        int codec = r.below(4);
        St st;
        st_init(L, st);
        DGen g(codec);
        int prof = VOICE;
        for (int k = 0; k < 40; k++) {
            if (r.chance(0.2)) {
                static const int pf[] = {VOICE, STICKY, STICKY, LOUD, QUIET, UNIFORM};
                prof = pf[r.below(6)];
            }
            uint8_t d[88];
            g.next(r, prof, d);
            if (get_b0(codec, d) >= voice_b0s(codec)) {
                continue;
            }
            dec_parms(L, codec, (const char*)d, &st.c, &st.p);
            st.p = st.c;
            if (r.chance(0.8)) {
                L.f_spectralAmpEnhance(&st.c);
            }
            L.f_setThreadRngSeed(5);
            if (!check_synth(L, st.c, st.e, 5, what, cname[codec], k, pc, pp, out)) {
                return;
            }
            sig(mix(hashb(out, sizeof out), (uint64_t)k));
            st.c = pc;
            st.e = pc;
        }
    }
    if (cx.caseno < 3) {
        sample("kind %d: w0 %.4f L %d, first samples %.3f %.3f %.3f", kind, (double)cur.w0, cur.L, (double)out[0], (double)out[1],
               (double)out[2]);
    }
}
MODE(synth) { syn_case(cx, 3); }
MODE(uvband) { syn_case(cx, 12); }

// P25: noise continuity along real streams, observed from outside: every unmuted frame's noise state is the exact
// continuation of the stored one, whatever was decoded.
MODE(uvstream) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    int codec = r.below(4);
    St st;
    uint32_t seed = r.chance(0.1) ? 0 : r.u32();
    bool seeded = r.chance(0.7);
    if (seeded) {
        L.f_setThreadRngSeed(seed);
    }
    st_init(L, st);
    Hist h(codec, 0.5);
    static CallRes res;
    bool first = true;
    int len = cx.caseno % 512 == 5 ? 4000 : 60;
    if (len > 60) {
        CNT("long streams");
    }
    for (int k = 0; k < len; k++) {
        Step s;
        h.next(r, s);
        mbe_parms src = st.c, e0 = st.e, p0 = st.p;
        do_step(L, s, r.bit(), st, res);
        evals(1);
        float ns = st.e.noiseSeed;
        // the noise state after the call is either one that was stored before (muted, tone, erasure, replay, reset) or
        // the continuation of a stored one by exactly 160 generator steps
        const mbe_parms* C[3] = {&src, &p0, &e0};
        int found = -1;
        bool moved = false;
        for (int q = 0; q < 3 && found < 0; q++) {
            if (ns == C[q]->noiseSeed && !memcmp(st.e.noiseOverlap, C[q]->noiseOverlap, sizeof e0.noiseOverlap)) {
                found = q;
            } else if (C[q]->noiseSeed >= 0) {
                Noise nz;
                noise(*C[q], 0, nz);
                if (ns == nz.seed && !memcmp(st.e.noiseOverlap, nz.ov, sizeof nz.ov)) {
                    found = q;
                    moved = true;
                }
            }
        }
        if (found < 0) { // cold start
            bool zero = true;
            for (int i = 0; i < 96; i++) {
                zero &= st.e.noiseOverlap[i] == 0;
            }
            bool was_cold = src.noiseSeed < 0 || p0.noiseSeed < 0 || e0.noiseSeed < 0;
            bool ok = zero && was_cold && ns >= 0 && ns < 53125;
            if (ok && first && seeded && k == 0) {
                ok = ns == (float)((seed ? seed : 0x6d25357bu) % 53125u);
            }
            // the override is used up by the first cold start of the thread
            if (ok && !(first && seeded)) {
                ok = ns == 3147.0f || (first && !seeded);
            }
            if (ns == -1.0f) { // still cold, or the model was reset by a muted or unplayable half-rate frame
                const char* mk = res.str + s.errs2;
                ok = zero && (was_cold || codec == A00 || (codec == A50 && *mk));
                CNT("resets to cold state");
            }
            if (!ok) {
                viol("noise-continuity", "%s %s step %d text '%s': generator %.0f is no continuation of %.0f/%.0f/%.0f", L.name,
                     cname[codec], k, res.str, (double)ns, (double)src.noiseSeed, (double)p0.noiseSeed, (double)e0.noiseSeed);
                return;
            }
            if (ns >= 0) {
                first = false;
                CNT("cold starts");
            }
        } else {
            CNT(moved ? "noise continuations" : "noise state kept");
        }
        sig(mix((uint64_t)(int)ns, (uint64_t)codec));
    }
    if (cx.caseno < 2) {
        sample("%s: generator state at the end %.0f", cname[codec], (double)st.e.noiseSeed);
    }
}
// ------------------------------------------------------------------ P16, callers' own models
// the clip level holds for every pair of models a caller may hand to the synthesizer, not only for those a decoder produces
MODE(clip) {
    Lib& L = cx.lib((int)cx.caseno);
    Rng& r = cx.r;
    double peak = 0;
    static const float les[] = {0, 1, 9999, 10000, 10001, 20480, 75000, 1e6f, 1e9f, 1e14f};
    for (int k = 0; k < 60; k++) {
        mbe_parms c, p;
        rand_model(r, c);
        rand_model(r, p);
        int st = r.below(6);
        double gc = exp2(r.uni(-20, 16)), gp = exp2(r.uni(-20, 16));
        if (st == 0) { // loud then quiet
            gp = exp2(r.uni(6, 16));
            gc = exp2(r.uni(-30, -4));
        } else if (st == 1) { // quiet then loud
            gc = exp2(r.uni(6, 16));
            gp = exp2(r.uni(-30, -4));
        } else if (st == 2) { // around the clip level
            gc = gp = exp2(r.uni(-3, 5));
        }
        for (int l = 0; l <= 56; l++) {
            c.Ml[l] = (float)(c.Ml[l] * gc);
            p.Ml[l] = (float)(p.Ml[l] * gp);
        }
        if (st == 3) { // one lonely harmonic
            int l0 = r.range(1, c.L);
            for (int l = 1; l <= 56; l++) {
                c.Ml[l] = l == l0 ? c.Ml[l] : 0;
                p.Ml[l] = l == l0 ? p.Ml[l] : 0;
            }
        }
        for (float& x : p.previousUw) {
            x *= (float)exp2(r.uni(-4, 8));
        }
        if (r.chance(0.5)) {
            memcpy(c.previousUw, p.previousUw, sizeof c.previousUw);
        }
        c.localEnergy = r.chance(0.6) ? les[r.below(10)] : c.localEnergy;
        p.localEnergy = r.chance(0.6) ? les[r.below(10)] : p.localEnergy;
        c.repeatCount = r.chance(0.3) ? r.below(4) : 0;
        c.errorCountTotal = r.chance(0.3) ? r.below(r.bit() ? 30 : 600) : 0;
        c.errorRate = r.chance(0.3) ? (float)r.uni(0, 0.0875) : 0;
        if (r.chance(0.05)) { // nothing at all
            memset(c.Ml, 0, sizeof c.Ml);
            if (r.bit()) {
                memset(p.Ml, 0, sizeof p.Ml);
            }
            CNT("models without amplitudes");
        }
        if (r.chance(0.3)) { // the energy hand-over of an enhanced model
            L.f_spectralAmpEnhance(&c);
        }
        if (r.chance(0.1)) {
            c.noiseSeed = -1;
        }
        mbe_parms c2 = c, p2 = p;
        float a[160];
        short s[160];
        memset(a, 0xff, sizeof a);
        L.f_synthesizeSpeechf(a, &c, &p, r.range(1, 64));
        L.f_synthesizeSpeech(s, &c2, &p2, 3);
        for (int i = 0; i < 160; i++) {
            double v = fabs((double)a[i]);
            if (!(v <= 32767.0 * 0.95 / 7 * (1 + 1e-6))) {
                viol("clip", "%s style %d: sample %d = %.9g (current |M| x %.3g, previous x %.3g, local energy %g/%g)", L.name, st, i,
                     (double)a[i], gc, gp, (double)c.localEnergy, (double)p.localEnergy);
                return;
            }
            if (s[i] > 31128 || s[i] < -31128) {
                viol("clip16", "%s style %d: 16-bit sample %d = %d", L.name, st, i, s[i]);
                return;
            }
            peak = fmax(peak, v);
        }
        for (int l = 0; l <= 56; l++) {
            if (!(fabs((double)c.Ml[l]) < 3e38 && fabs((double)p.Ml[l]) < 3e38 && fabs((double)c.PHIl[l]) < 3e38)) {
                viol("not-finite", "%s style %d: harmonic %d ends with amplitude %g, phase %g (%d errors, rate %g, limit %d)", L.name, st, l,
                     (double)c.Ml[l], (double)c.PHIl[l], c.errorCountTotal, (double)c.errorRate, c.amplitudeThreshold);
                return;
            }
        }
        evals(2);
        if (peak > 4446) {
            CNT("pairs that reached the clip level");
            if (st == 0) {
                CNT("loud-to-quiet pairs");
            }
        }
        sig(mix(hashb(a, sizeof a), (uint64_t)k));
        peak = 0;
    }
    if (cx.caseno < 2) {
        sample("%s: 60 model pairs clipped", L.name);
    }
}

// ------------------------------------------------------------------ P23
static void mk_tone50(Rng& r, uint8_t* d, int id, int amp) {
    for (int i = 0; i < 49; i++) {
        d[i] = (uint8_t)r.bit();
    }
    for (int i = 0; i < 6; i++) {
        d[i] = 1;
    }
    set_bits(d, {6, 7, 8, 9, 10, 11}, amp >> 1);
    d[44] = (uint8_t)(amp & 1);
    set_bits(d, {12, 13, 14, 15, 16, 17, 18, 19}, id);
    if (r.bit()) {
        set_bits(d, {45, 46, 47, 48}, 0);
    } else {
        set_bits(d, {20, 21, 22, 23}, id >> 4);
    }
}
static bool tone_cmp(Lib& L, const float* a, const Tone& t, bool mute, const char* what, int id, int amp) {
    for (int n = 0; n < 160; n++) {
        double w = mute ? 0 : t.out[n];
        if (!(fabs(a[n] - w) <= 0.02 + 2e-6 * fabs(w))) {
            viol("tone", "%s %s id %d amplitude %d: sample %d is %.6g, want %.6g", L.name, what, id, amp, n, (double)a[n], w);
            return false;
        }
    }
    return true;
}
MODE(tones) { // stage calls, all (id, amplitude): 256 cases = ids
    Rng& r = cx.r;
    Lib& L = cx.lib((int)(cx.caseno / 256));
    bool mute = !strcmp(L.name, "notones");
    int id = (int)(cx.caseno & 255);
    static float out[160];
    static mbe_parms m, m0;
    Tone t;
    for (int amp = 0; amp < 128; amp++) {
        uint8_t d[49];
        mk_tone50(r, d, id, amp);
        rand_model(r, m);
        m.swn = (int)r.u32();
        m.un = (int)r.u32();
        if (r.chance(0.3)) {
            m.swn = m.un = 0;
        }
        m0 = m;
        for (int i = 0; i < 160; i++) {
            out[i] = NAN;
        }
        L.f_synthesizeTonef(out, (const char*)d, &m);
        tone(id, amp, m0.swn, m0.un, t);
        evals(1);
        if (!tone_cmp(L, out, t, mute || !t.audible, "synthesizeTonef", id, amp)) {
            return;
        }
        if (!mute && (m.swn != t.swn || m.un != t.un)) {
            viol("tone-phase", "%s id %d: phase %08x/%08x -> %08x/%08x, want %08x/%08x", L.name, id, (unsigned)m0.swn, (unsigned)m0.un,
                 (unsigned)m.swn, (unsigned)m.un, (unsigned)t.swn, (unsigned)t.un);
            return;
        }
        if (mute && (m.swn != m0.swn || m.un != m0.un)) {
            CNT("silent tone moved the phase");
        }
        m.swn = m0.swn;
        m.un = m0.un;
        if (memcmp(&m, &m0, sizeof m)) {
            viol("tone-state", "%s id %d: a tone changed more than its phases", L.name, id);
            return;
        }
        sig(mix((uint64_t)id, (uint64_t)amp));
        CNT(t.audible ? "audible tones" : "silent indices");
        // D-STAR entry: indices 5..122 at the nominal level, others silent
        int ids = amp == 0 ? id : amp == 1 ? id - 256 : amp == 2 ? id + 256 : r.range(-400, 400);
        m = m0;
        L.f_synthesizeTonefdstar(out, (const char*)d, &m, ids);
        bool aud = ids >= 5 && ids <= 122;
        tone(aud ? ids : 0, 103, m0.swn, m0.un, t);
        evals(1);
        if (!tone_cmp(L, out, t, mute || !aud, "synthesizeTonefdstar", ids, 103)) {
            return;
        }
        if (!mute && (m.swn != t.swn || m.un != t.un)) {
            viol("tone-phase", "%s D-STAR id %d: phase %08x/%08x -> %08x/%08x, want %08x/%08x", L.name, ids, (unsigned)m0.swn,
                 (unsigned)m0.un, (unsigned)m.swn, (unsigned)m.un, (unsigned)t.swn, (unsigned)t.un);
            return;
        }
        CNT(aud ? "D-STAR tones" : "D-STAR silent indices");
    }
    if (id == 160) {
        tone(160, 127, 0, 0, t);
        sample("id 160 amplitude 127 from phase 0: %.2f %.2f %.2f", t.out[0], t.out[1], t.out[2]);
    }
}
// phase continuity through the process calls: a stream of tone frames (both half-rate codecs), predicted from zero phase
MODE(tonestream) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    int codec = (int)((cx.caseno / cx.nlib) & 1) ? A50 : A00;
    St st;
    st_init(L, st);
    int swn = 0, un = 0;
    static CallRes res;
    Tone t;
    int id = 30, amp = 100;
    int len = cx.caseno % 512 < 2 ? 3000 : 60;
    bool both = r.chance(0.2); // both half-rate codecs on one state
    for (int k = 0; k < len; k++) {
        if (both && r.chance(0.3)) {
            codec = codec == A50 ? A00 : A50;
            id = r.range(5, 122);
            CNT("codec changes between tones");
        }
        if (r.chance(0.4)) {
            id = codec == A50 ? (r.bit() ? r.range(5, 122) : r.range(128, 163)) : r.range(5, 122);
            amp = r.below(128);
        }
        Step s;
        memset(&s, 0, sizeof s);
        s.codec = codec;
        s.frame = r.bit();
        s.uv = 3;
        bool invalid = codec == A50 && r.chance(0.1);
        int tid = invalid ? (r.bit() ? r.range(164, 255) : r.range(0, 4)) : id;
        if (codec == A50) {
            mk_tone50(r, s.d, tid, amp);
        } else {
            // search a vector with tone class and this index
            uint8_t* d = s.d;
            for (;;) {
                for (int i = 0; i < 49; i++) {
                    d[i] = (uint8_t)r.bit();
                }
                set_b0(codec, d, 126 + r.below(2));
                set_bits(d, {9, 42, 43, 10, 11}, tid & 31);
                if (dstar_tone_index(d) == tid) {
                    break;
                }
            }
        }
        if (s.frame) {
            make_frame(codec, s.d, s.fr, r, 0);
            if (r.chance(0.3)) { // correctable damage that keeps the frame a tone
                s.fr[24 + r.below(12)] ^= 1; // parity part of the second word
            }
            FecOut o;
            fec_expect(codec, s.fr, o);
            s.errs = o.errs;
            s.errs2 = o.errs2;
        } else {
            s.errs2 = codec == A50 ? r.below(6) : r.below(3);
            s.errs = r.below(s.errs2 + 1) & 1;
        }
        do_step(L, s, false, st, res);
        evals(1);
        if (invalid) {
            CNT("invalid tones between tones");
            if (strcmp(L.name, "notones") && (st.c.swn != swn || st.c.un != un)) {
                viol("phase-continuity", "%s %s frame %d: an invalid tone moved the phase", L.name, cname[codec], k);
                return;
            }
            continue;
        }
        tone(tid, codec == A50 ? amp : 103, swn, un, t);
        if (!tone_cmp(L, res.a, t, !strcmp(L.name, "notones"), cname[codec], tid, amp)) {
            return;
        }
        swn = t.swn;
        un = t.un;
        if (strcmp(L.name, "notones") && (st.c.swn != swn || st.c.un != un)) {
            viol("phase-continuity", "%s %s frame %d id %d: phase after the tone %08x/%08x, want %08x/%08x", L.name, cname[codec], k,
                 tid, (unsigned)st.c.swn, (unsigned)st.c.un, (unsigned)swn, (unsigned)un);
            return;
        }
        CNT("tone frames");
        sig(mix((uint64_t)tid * 4 + (uint64_t)codec, (uint64_t)k));
    }
    if (cx.caseno < 2) {
        sample("%s: tone frames, final phase %08x/%08x", cname[codec], (unsigned)swn, (unsigned)un);
    }
}

// ------------------------------------------------------------------ P24
struct CnTh {
    Lib* L;
    uint64_t rs;
    bool seeded;
    uint32_t seed;
    long blocks;
    char bad[400];
};
static void* cn_thread(void* vp) {
    CnTh& t = *(CnTh*)vp;
    Lib& L = *t.L;
    Rng r(t.rs);
    if (t.seeded) {
        L.f_setThreadRngSeed(t.seed);
    }
    Comfort cn{Comfort::init(t.seed, !t.seeded)};
    double eps = is_fast(L) ? 1.2e-5 : 3e-6;
    St s[4];
    for (int c = 0; c < 4; c++) {
        st_init(L, s[c]);
    }
    float a[160];
    short sh[160];
    CallRes* res = (CallRes*)malloc(sizeof(CallRes));
    int len = r.below(2000) ? 80 : 20000;
    for (int k = 0; k < len; k++) {
        int op = r.below(10);
        int out = 0; // 1 float block in a, 2 short block in sh
        const char* what = "";
        if (op < 2) {
            for (int i = 0; i < 160; i++) {
                a[i] = NAN;
            }
            L.f_synthesizeComfortNoisef(a);
            out = 1;
            what = "synthesizeComfortNoisef";
        } else if (op == 2) {
            memset(sh, 0x55, sizeof sh);
            L.f_synthesizeComfortNoise(sh);
            out = 2;
            what = "synthesizeComfortNoise";
        } else if (op == 3) { // a muted synthesis call
            mbe_parms c, p;
            rand_model(r, c);
            rand_model(r, p);
            if (r.bit()) {
                c.repeatCount = r.range(4, 6);
            } else {
                c.mutingThreshold = 0.0875f;
                c.errorRate = (float)r.uni(0.0876, 0.4);
            }
            if (r.bit()) {
                L.f_synthesizeSpeechf(a, &c, &p, 3);
                out = 1;
            } else {
                L.f_synthesizeSpeech(sh, &c, &p, 3);
                out = 2;
            }
            what = "muted synthesizeSpeech";
        } else if (op == 4) { // erasure frame
            Step st;
            memset(&st, 0, sizeof st);
            st.codec = A50;
            DGen g(A50);
            g.next(r, VOICE, st.d);
            set_b0(A50, st.d, r.range(120, 123));
            st.d[4] = 0; // not a tone pattern
            bool b = r.bit();
            do_step(L, st, b, s[A50], *res);
            memcpy(a, res->a, sizeof a);
            memcpy(sh, res->sh, sizeof sh);
            out = b ? 2 : 1;
            what = "erasure frame";
        } else if (op == 5) { // D-STAR non-tone class frame -> comfort noise
            Step st;
            memset(&st, 0, sizeof st);
            st.codec = A00;
            DGen g(A00);
            g.next(r, VOICE, st.d);
            set_b0(A00, st.d, 126);
            st.errs2 = 5;
            st.errs = 3;
            bool b = r.bit();
            do_step(L, st, b, s[A00], *res);
            memcpy(a, res->a, sizeof a);
            memcpy(sh, res->sh, sizeof sh);
            out = b ? 2 : 1;
            what = "unplayable tone frame";
        } else { // calls that must not consume comfort noise
            switch (r.below(7)) {
                case 0: {
                    mbe_parms c, p;
                    rand_model(r, c);
                    rand_model(r, p);
                    L.f_synthesizeSpeechf(a, &c, &p, 3);
                    break;
                }
                case 1: {
                    int codec = r.below(4);
                    Step st;
                    DGen g(codec);
                    step_gen(r, g, codec, r.bit(), VOICE, 0, st);
                    if (s[codec].p.errorRate < 0.08) {
                        do_step(L, st, r.bit(), s[codec], *res);
                    }
                    break;
                }
                case 2: L.f_synthesizeSilencef(a); break;
                case 3: {
                    mbe_parms c;
                    rand_model(r, c);
                    uint8_t d[49];
                    mk_tone50(r, d, r.below(256), 90);
                    L.f_synthesizeTonef(a, (const char*)d, &c);
                    break;
                }
                case 4: {
                    St x;
                    st_init(L, x);
                    mbe_parms y;
                    L.f_moveMbeParms(&x.c, &y);
                    break;
                }
                case 5: L.f_synthesizeComfortNoisef(nullptr); break;
                default: {
                    mbe_parms c, p;
                    rand_model(r, c);
                    rand_model(r, p);
                    L.f_spectralAmpEnhance(&c);
                    L.f_applyAdaptiveSmoothing(&c, &p);
                    float z[160] = {0};
                    L.f_floattoshort(z, sh);
                }
            }
            continue;
        }
        t.blocks++;
        for (int i = 0; i < 160; i++) {
            double w = cn.next();
            if (out == 1 ? !(fabs(a[i] - w) <= eps)
                         : (sh[i] != (int)trunc(w * 7) && !(fabs(w * 7 - round(w * 7)) < 1e-4 && abs(sh[i] - (int)round(w * 7)) <= 1))) {
                snprintf(t.bad, sizeof t.bad, "%s: op %d %s (%s seed %u) sample %d is %.8g, want %.8g", L.name, k, what,
                         t.seeded ? "set" : "default", t.seed, i, out == 1 ? (double)a[i] : (double)sh[i], out == 1 ? w : w * 7);
                free(res);
                return nullptr;
            }
        }
    }
    free(res);
    return nullptr;
}
MODE(comfort) {
    Rng& r = cx.r;
    CnTh t{&cx.lib((int)cx.caseno), r.u64(), r.chance(0.7), 0, 0, ""};
    static const uint32_t special[] = {0, 1, 0xffffffffu, 0x80000000u, 0x12345678u, 0xDEECE66Du, 53125, 0x6d25357bu};
    t.seed = t.seeded ? (r.chance(0.3) ? special[r.below(8)] : r.u32()) : 0;
    pthread_t th;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_create(&th, &at, cn_thread, &t);
    pthread_join(th, nullptr);
    evals(t.blocks);
    CNTN("comfort-noise blocks", t.blocks);
    CNT(t.seeded ? "seeded threads" : "unseeded threads");
    if (t.bad[0]) {
        viol("sequence", "%s", t.bad);
        return;
    }
    sig(mix(t.seed, (uint64_t)t.seeded * 1000 + (uint64_t)t.blocks));
    if (cx.caseno < 2) {
        sample("%s seed %u: %ld blocks matched the generator", t.seeded ? "set" : "default", t.seed, t.blocks);
    }
}

// ------------------------------------------------------------------ P27
MODE(enhance) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    static mbe_parms m, m0, ms, mlast;
    double fe = is_fast(L) ? 3 : 1;
    for (int k = 0; k < 400; k++) {
        rand_model(r, m);
        int shape = r.below(11);
        if (shape >= 9) { // one harmonic dominates: the weights' numerators and denominator nearly cancel
            memset(m.Ml, 0, sizeof m.Ml);
            if (r.bit()) { // pitch and harmonic count chosen apart: harmonics right up to (and onto) the band edge
                m.L = r.range(9, 56);
                m.w0 = (float)(PI / (m.L + (r.bit() ? r.uni(-0.01, 0.5) : 0)));
            }
            double bg = exp2(r.uni(-6, 8)), top = bg * exp2(r.uni(4, 18));
            for (int l = 1; l <= m.L; l++) {
                m.Ml[l] = shape == 9 ? (float)bg : (float)(bg * exp2(r.uni(-3, 3)));
            }
            int l = r.bit() ? m.L - r.below(3) : r.range(1, m.L);
            m.Ml[l] = (float)top;
            if (r.chance(0.3)) {
                m.Ml[r.range(1, m.L)] = (float)(top / exp2(r.uni(4, 10)));
            }
        } else if (shape == 7) { // from a decoder
            int codec = r.below(4);
            St st;
            st_init(L, st);
            DGen g(codec);
            uint8_t d[88];
            int n = r.range(1, 8), prof = r.bit() ? LOUD : r.bit() ? QUIET : VOICE;
            for (int q = 0; q < n; q++) {
                g.next(r, prof, d);
                dec_parms(L, codec, (const char*)d, &st.c, &st.p);
                st.p = st.c;
            }
            m = st.c;
        } else if (shape == 8) { // nothing / almost nothing
            memset(m.Ml, 0, sizeof m.Ml);
            if (r.bit()) {
                m.Ml[r.range(1, m.L)] = (float)exp2(r.uni(-3, 10));
            }
        } else {
            rand_amps(r, m, r.chance(0.1) ? 20 : -6, r.chance(0.1) ? 40 : 14, shape);
        }
        if (r.chance(0.03)) { // fewer harmonics than any codec has
            m.L = r.range(1, 8);
            CNT("models below nine harmonics");
        }
        if (r.chance(0.08)) { // what adaptive smoothing leaves behind when the error count is extreme
            bool all = r.chance(0.7);
            for (int l = 1; l <= m.L; l++) {
                if (all || r.bit()) {
                    m.Ml[l] = -m.Ml[l];
                }
            }
            CNT("models with negative amplitudes");
        }
        if (k && r.chance(0.25)) { // the model before, with one thing changed: nothing may be left over from that call
            float w = m.w0;
            int l0 = m.L;
            if (r.bit()) {
                memcpy(m.Ml, mlast.Ml, sizeof m.Ml);
            }
            m.w0 = mlast.w0;
            m.L = mlast.L;
            switch (r.below(4)) {
                case 0: m.L = r.range(9, mlast.w0 > 0 ? (int)fmin(56, fmax(9, PI / mlast.w0)) : 56); break;
                case 1: m.w0 = w; m.L = r.bit() ? l0 : (int)fmin(m.L, w > 0 ? fmax(9, PI / w) : 56); break;
                case 2: m.Ml[r.range(1, m.L)] *= (float)r.uni(0, 3); break;
                default: break;
            }
            for (int l = 1; l <= m.L; l++) {
                if (!(fabsf(m.Ml[l]) > 0)) {
                    m.Ml[l] = (float)exp2(r.uni(0, 8));
                }
            }
            CNT("models close to the one before");
        }
        if (r.chance(0.4)) {
            rand_rest(r, m);
            CNT("models with bookkeeping");
        }
        mlast = m;
        m0 = m;
        Enh o;
        enhance(m0, o, 1.5e-5 * fe);
        L.f_spectralAmpEnhance(&m);
        evals(1);
        // nothing but the amplitudes 1..L
        memcpy(&ms, &m, sizeof ms);
        for (int l = 1; l <= m0.L; l++) {
            ms.Ml[l] = m0.Ml[l];
        }
        if (memcmp(&ms, &m0, sizeof ms)) {
            DiffBuf db;
            const char* t = diff_parms(ms, m0, true, db);
            viol("footprint", "%s: enhancement changed more than the amplitudes (%s)", L.name, t ? t : "padding");
            return;
        }
        if (o.noshape) {
            CNT("models without shape");
            for (int l = 1; l <= m0.L; l++) {
                if (m.Ml[l] != m0.Ml[l]) {
                    if (o.amb) {
                        break;
                    }
                    viol("no-shape", "%s: model without spectral shape changed: Ml[%d] %.7g -> %.7g", L.name, l, (double)m0.Ml[l],
                         (double)m.Ml[l]);
                    return;
                }
            }
            continue;
        }
        double s0 = 0, s1 = 0;
        for (int l = 1; l <= m0.L; l++) {
            s0 += (double)m0.Ml[l] * m0.Ml[l];
            s1 += (double)m.Ml[l] * m.Ml[l];
            if (m0.Ml[l] == 0 && m.Ml[l] != 0) {
                viol("zero", "%s: zero amplitude %d became %.7g", L.name, l, (double)m.Ml[l]);
                return;
            }
        }
        if (!(fabs(s1 - s0) <= 2e-5 * fe * s0)) {
            viol("energy", "%s: energy %.9g -> %.9g (L %d)", L.name, s0, s1, m0.L);
            return;
        }
        // bounded shape relative to the unweighted first harmonic
        if (m0.Ml[1] != 0 && m0.L >= 8) {
            double g = m.Ml[1] / (double)m0.Ml[1];
            if (!(g > 0)) {
                viol("sign", "%s: first harmonic %.7g -> %.7g", L.name, (double)m0.Ml[1], (double)m.Ml[1]);
                return;
            }
            for (int l = 2; l <= m0.L; l++) {
                if (m0.Ml[l] == 0) {
                    continue;
                }
                double w = m.Ml[l] / (double)m0.Ml[l] / g;
                bool low = 8 * l <= m0.L;
                if (!(low ? fabs(w - 1) <= 1e-5 * fe : (w >= 0.5 - 1e-5 * fe && w <= 1.2 + 2e-5 * fe))) {
                    viol("weight", "%s: harmonic %d of %d weighted by %.7g", L.name, l, m0.L, w);
                    return;
                }
            }
        }
        if (!o.amb) {
            for (int l = 1; l <= m0.L; l++) {
                if (!(m.Ml[l] >= o.lo[l] && m.Ml[l] <= o.hi[l])) {
                    viol("shape", "%s: harmonic %d of %d (w0 %.5f): %.7g -> %.7g, want %.7g (%.7g..%.7g)", L.name, l, m0.L, (double)m0.w0,
                         (double)m0.Ml[l], (double)m.Ml[l], o.M[l], o.lo[l], o.hi[l]);
                    return;
                }
            }
            CNT("shaped models");
        } else {
            CNT("ill-conditioned models (invariants only)");
        }
        sig(hashb(m.Ml, sizeof m.Ml));
        // scale by a power of two
        if (r.chance(0.3) && !o.amb && o.rm0 < 1e24 && o.rm0 > 1e-3) {
            int e = r.range(-5, 12);
            ms = m0;
            for (int l = 0; l <= 56; l++) {
                ms.Ml[l] = ldexpf(m0.Ml[l], e);
            }
            L.f_spectralAmpEnhance(&ms);
            evals(1);
            for (int l = 1; l <= m0.L; l++) {
                double w = ldexp((double)m.Ml[l], e);
                if (!(ms.Ml[l] >= ldexp(o.lo[l], e) && ms.Ml[l] <= ldexp(o.hi[l], e))) {
                    viol("level", "%s: scaling the model by 2^%d changed its shape: Ml[%d] %.7g, want %.7g", L.name, e, l,
                         (double)ms.Ml[l], w);
                    return;
                }
            }
            CNT("scaled models");
        }
    }
    if (cx.caseno < 2) {
        sample("L %d: Ml[1] %.4g -> %.4g", m0.L, (double)m0.Ml[1], (double)m.Ml[1]);
    }
}

// ------------------------------------------------------------------ P28
MODE(smooth) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    static mbe_parms cur, prev, c0, p0, other;
    double fe = is_fast(L) ? 3 : 1;
    rand_model(r, prev);
    bool chain = r.bit();
    for (int k = 0; k < 300; k++) {
        rand_model(r, cur);
        if (r.chance(0.4)) {
            rand_amps(r, cur, 4, 12, r.below(7));
        }
        static const double ers[] = {0, 0.002, 0.005, 0.0051, 0.008, 0.0124, 0.0125, 0.0126, 0.02, 0.05, 0.0875, 0.09, 0.096, 0.3};
        cur.errorRate = (float)(r.chance(0.7) ? ers[r.below(14)] : r.uni(0, 0.1));
        static const int tots[] = {0, 0, 1, 3, 4, 5, 6, 7, 8, 12, 20, 40, 100, 300, 7000000, 2147483647};
        cur.errorCountTotal = tots[r.below(r.chance(0.1) ? 16 : 14)];
        cur.errorCount4 = r.below(2);
        if (!chain) {
            rand_model(r, prev);
            if (r.chance(0.3)) {
                static const int th[] = {-5, 0, 1, 20480, 26480, 2147483647, 2147477647, 2147477648, -2147483647};
                prev.amplitudeThreshold = th[r.below(9)];
            } else {
                prev.amplitudeThreshold = r.range(-20000, 200000);
            }
            static const float le[] = {0, 9999.9f, 10000, 75000, 1e9f};
            if (r.chance(0.4)) {
                prev.localEnergy = le[r.below(5)];
            }
        }
        // aim amplitudes at the threshold
        if (r.chance(0.3)) {
            Smooth q;
            double rm = 0;
            for (int l = 1; l <= cur.L; l++) {
                rm += (double)cur.Ml[l] * cur.Ml[l];
            }
            smooth(cur, prev, rm, q);
            if (!q.vm_inf && q.VM < 1e8) {
                int l = r.range(1, cur.L);
                cur.Ml[l] = (float)(q.VM * r.uni(0.99, 1.01));
            }
            if (r.bit() && q.Am > 0 && q.Tm > 0) {
                float f = (float)(q.Tm / q.Am * r.uni(0.98, 1.02));
                for (int l = 1; l <= cur.L; l++) {
                    cur.Ml[l] *= f;
                }
            }
        }
        double rm0 = 0;
        int how = r.below(5);
        for (int l = 1; l <= cur.L; l++) {
            rm0 += (double)cur.Ml[l] * cur.Ml[l];
        }
        if (how == 1) { // enhancement of this very model first: its pre-enhancement energy is used
            L.f_spectralAmpEnhance(&cur);
            if (r.chance(0.3)) { // amplitudes edited afterwards do not matter
                cur.Ml[r.range(1, cur.L)] *= 2;
            }
        } else if (how == 2) { // another model was enhanced: no influence
            rand_model(r, other);
            L.f_spectralAmpEnhance(&other);
        } else if (how == 3) { // this one, then another one
            L.f_spectralAmpEnhance(&cur);
            rand_model(r, other);
            L.f_spectralAmpEnhance(&other);
            rm0 = 0;
            for (int l = 1; l <= cur.L; l++) {
                rm0 += (double)cur.Ml[l] * cur.Ml[l];
            }
        } else if (how == 4) { // handed over once only
            L.f_spectralAmpEnhance(&cur);
            other = cur;
            mbe_parms op = prev;
            L.f_applyAdaptiveSmoothing(&cur, &op);
            cur = other;
            rm0 = 0;
            for (int l = 1; l <= cur.L; l++) {
                rm0 += (double)cur.Ml[l] * cur.Ml[l];
            }
        }
        c0 = cur;
        p0 = prev;
        if (L.f_requiresAdaptiveSmoothing(&cur) != (cur.errorRate > 0.0125f || cur.errorCountTotal > 4)) {
            viol("predicate", "%s: smoothing required? rate %.6f total %d -> %d", L.name, (double)cur.errorRate, cur.errorCountTotal,
                 L.f_requiresAdaptiveSmoothing(&cur));
            return;
        }
        cur.repeatCount = r.range(-1, 6);
        c0.repeatCount = cur.repeatCount;
        if (!!L.f_isMaxFrameRepeat(&cur) != (cur.repeatCount >= 4)
            || !!L.f_requiresMuting(&cur) != (cur.errorRate > cur.mutingThreshold)) {
            viol("predicate", "%s: repeat %d rate %.6f threshold %.4f: repeat? %d mute? %d", L.name, cur.repeatCount,
                 (double)cur.errorRate, (double)cur.mutingThreshold, L.f_isMaxFrameRepeat(&cur), L.f_requiresMuting(&cur));
            return;
        }
        Smooth o;
        smooth(c0, p0, rm0, o);
        L.f_applyAdaptiveSmoothing(&cur, &prev);
        evals(1);
        if (memcmp(&prev, &p0, sizeof prev)) {
            viol("footprint", "%s: smoothing changed the previous state", L.name);
            return;
        }
        if (!feq(cur.localEnergy, o.energy, 1e-5 * fe, 0)) {
            viol("energy", "%s step %d (handoff %d): local energy %.8g, want %.8g", L.name, k, how, (double)cur.localEnergy, o.energy);
            return;
        }
        if (cur.amplitudeThreshold != o.Tm) {
            viol("limit", "%s step %d: amplitude limit %d, want %d (rate %.6f, total %d, previous %d)", L.name, k,
                 cur.amplitudeThreshold, o.Tm, (double)c0.errorRate, c0.errorCountTotal, p0.amplitudeThreshold);
            return;
        }
        for (int l = 1; l <= c0.L; l++) {
            if (!o.Vamb[l] && cur.Vl[l] != o.V[l]) {
                viol("voicing", "%s step %d: band %d amplitude %.7g against %.7g: voicing %d -> %d", L.name, k, l, (double)c0.Ml[l],
                     o.VM, c0.Vl[l], cur.Vl[l]);
                return;
            }
            double a = c0.Ml[l], b = o.M[l];
            if (o.scale_amb) {
                b = cur.Ml[l] == c0.Ml[l] ? a : a * (o.Tm / o.Am);
            }
            if (!(fabs(cur.Ml[l] - b) <= 1e-5 * fe * fabs(b)) || (!o.scaled && !o.scale_amb && cur.Ml[l] != c0.Ml[l])) {
                viol("amplitude", "%s step %d: amplitude %d %.8g -> %.8g, want %.8g (sum %.6g limit %d)", L.name, k, l,
                     (double)c0.Ml[l], (double)cur.Ml[l], b, o.Am, o.Tm);
                return;
            }
        }
        // footprint
        mbe_parms t = cur;
        for (int l = 1; l <= c0.L; l++) {
            t.Vl[l] = c0.Vl[l];
            t.Ml[l] = c0.Ml[l];
        }
        t.localEnergy = c0.localEnergy;
        t.amplitudeThreshold = c0.amplitudeThreshold;
        if (memcmp(&t, &c0, sizeof t)) {
            DiffBuf db;
            const char* q = diff_parms(t, c0, true, db);
            viol("footprint", "%s: smoothing changed more than voicing, amplitudes, energy and limit (%s)", L.name, q ? q : "padding");
            return;
        }
        int forced = 0;
        for (int l = 1; l <= c0.L; l++) {
            forced += cur.Vl[l] != c0.Vl[l];
        }
        CNTN("bands forced voiced", forced);
        CNT(o.scaled ? "scaled models" : "unscaled models");
        CNT(how == 1 ? "energy handed over" : how == 3 || how == 4 ? "stale energy ignored" : "energy recomputed");
        CNT(o.vm_inf ? "no adaptive threshold" : c0.errorRate <= 0.0125f && !c0.errorCount4 ? "threshold formula 1" : "threshold formula 2");
        sig(mix(hashb(&cur.Ml, sizeof cur.Ml), (uint64_t)(uint32_t)cur.amplitudeThreshold));
        prev = cur;
    }
    if (L.f_requiresAdaptiveSmoothing(nullptr) || L.f_requiresMuting(nullptr) || L.f_isMaxFrameRepeat(nullptr)) {
        viol("predicate", "%s: a null state is not 'no'", L.name);
    }
    c0 = cur;
    L.f_applyAdaptiveSmoothing(&cur, nullptr);
    L.f_applyAdaptiveSmoothing(nullptr, &cur);
    if (memcmp(&c0, &cur, sizeof cur)) {
        viol("null", "%s: a call with a null state changed the other one", L.name);
    }
    if (cx.caseno < 2) {
        sample("last limit %d, local energy %.6g", cur.amplitudeThreshold, (double)cur.localEnergy);
    }
}
// the limit over very long runs of frames
MODE(smoothlong) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    static mbe_parms cur, prev;
    rand_model(r, prev);
    int64_t th = 20480;
    static const int tots[] = {7, 5, 19, 20, 21, 0, 60, 150};
    int base = tots[cx.caseno % 8];
    long n = !strcmp(g_tier, "thorough") ? 2000000 : 700000;
    mbe_parms m;
    rand_model(r, m);
    m.L = 9;
    m.errorRate = 0.02f;
    for (long k = 0; k < n; k++) {
        cur = m;
        cur.errorCountTotal = base;
        if (r.below(64) == 0) {
            cur.errorCountTotal = r.below(300);
        }
        if (r.below(900000) == 0) {
            cur.errorRate = 0;
            cur.errorCountTotal = 3;
        }
        int64_t pt = th <= 0 ? 20480 : th > 2147483647 - 6000 ? 2147483647 - 6000 : th;
        int64_t want = cur.errorRate <= 0.005f && cur.errorCountTotal <= 6 ? 20480 : 6000 - 300 * (int64_t)cur.errorCountTotal + pt;
        L.f_applyAdaptiveSmoothing(&cur, &prev);
        if (cur.amplitudeThreshold != want) {
            viol("limit", "%s frame %ld: limit %d, want %ld (previous %ld, total %d)", L.name, k, cur.amplitudeThreshold, (long)want,
                 (long)th, cur.errorCountTotal);
            return;
        }
        th = want;
        prev.amplitudeThreshold = cur.amplitudeThreshold;
        prev.localEnergy = cur.localEnergy;
    }
    evals(n);
    CNTN("consecutive frames", n);
    if (th > 2000000000) {
        CNT("runs that reached saturation");
    }
    sig((uint64_t)th);
    sig((uint64_t)base + 1);
    if (cx.caseno < 2) {
        sample("%ld frames with %d errors each: limit ends at %ld", n, base, (long)th);
    }
}
