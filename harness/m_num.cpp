// P16-P18: sample range and finiteness, 16-bit/float equivalence, float-to-16-bit conversion.
#include "gen.h"

static inline short conv1(float x) {
    float y = x * 7.0f;
    if (y > 32767.0f * 0.95f) {
        y = 32767.0f * 0.95f;
    }
    if (y < -32767.0f * 0.95f) {
        y = -32767.0f * 0.95f;
    }
    return (short)y;
}

// all 2^32 float patterns: 1024 cases x 2^22 values (tier quick); NaNs are replaced by +0
MODE(f2s) {
    Lib& L = cx.lib((int)(cx.caseno & 1));
    uint32_t block = (uint32_t)(cx.caseno >> 1) & 1023;
    static float* inb;
    static short* outb;
    if (!inb) {
        inb = (float*)aligned_alloc(64, 4096);
        outb = (short*)aligned_alloc(64, 4096);
    }
    uint32_t N = 1u << 22, done = 0;
    uint32_t base = block * N;
    long bad = 0;
    unsigned align = 0;
    while (done < N) {
        unsigned oa = align & 3, ob = (align >> 2) & 7; // every 4-byte / 2-byte placement
        align++;
        float* in = inb + 16 + oa;
        short* out = outb + 64 + ob;
        uint32_t cntv = N - done < 160 ? N - done : 160;
        for (uint32_t i = 0; i < 160; i++) {
            uint32_t v = i < cntv ? (base + done + i) * 2654435761u : 0;
            if ((v & 0x7fffffffu) > 0x7f800000u) {
                v = 0;
            }
            memcpy(in + i, &v, 4);
        }
        for (int i = 1; i <= 16; i++) {
            out[-i] = out[159 + i] = (short)0x5A5A;
        }
        L.f_floattoshort(in, out);
        for (int i = 0; i < 160; i++) {
            bad += out[i] != conv1(in[i]);
        }
        for (int i = 1; i <= 16; i++) {
            bad += out[-i] != (short)0x5A5A || out[159 + i] != (short)0x5A5A;
        }
        if (bad) {
            for (int i = 0; i < 160; i++) {
                if (out[i] != conv1(in[i])) {
                    viol("conversion", "%s position %d (placement %u/%u): %.9g -> %d, want %d", L.name, i, oa, ob, (double)in[i],
                         out[i], conv1(in[i]));
                    return;
                }
            }
            viol("bounds", "%s: samples outside the 160-sample buffer were written", L.name);
            return;
        }
        done += cntv;
    }
    evals((long)N);
    CNTN("float patterns", N);
    for (int i = 0; i < 160; i++) {
        short a = conv1(inb[16 + i]);
        sig(mix((uint64_t)(uint16_t)a, (uint64_t)i));
    }
    if (cx.caseno < 2) {
        sample("%s: 650.5 -> %d, 1e30 -> %d, -0.2 -> %d (oracle)", L.name, conv1(650.5f), conv1(1e30f), conv1(-0.2f));
    }
}
// oddness and monotonicity around every output step, random buffers with extreme neighbours, under ASan as well
MODE(f2smix) {
    Lib& L = cx.lib((int)cx.caseno);
    Rng& r = cx.r;
    for (int k = 0; k < 400; k++) {
        GBuf in(640), out(320), neg(640), out2(320);
        float* x = in.f();
        for (int i = 0; i < 160; i++) {
            double m = r.below(4) == 0 ? 1e30 : r.below(3) == 0 ? 5000 : r.below(2) ? 100 : 2;
            x[i] = (float)r.uni(-m, m);
            if (r.below(40) == 0) {
                x[i] = r.bit() ? INFINITY : -INFINITY;
            }
            neg.f()[i] = -x[i];
        }
        uint64_t h = hashb(x, 640);
        memset(out.p, 0x77, 320);
        L.f_floattoshort(x, out.s());
        L.f_floattoshort(neg.f(), out2.s());
        if (hashb(x, 640) != h) {
            viol("input", "input samples were modified");
            return;
        }
        if (!in.ok() || !out.ok() || !neg.ok() || !out2.ok()) {
            viol("bounds", "write outside the buffers");
            return;
        }
        for (int i = 0; i < 160; i++) {
            if (out.s()[i] != conv1(x[i]) || out2.s()[i] != -out.s()[i]) {
                viol("conversion", "%s position %d: %.9g -> %d (negated %d), want %d", L.name, i, (double)x[i], out.s()[i],
                     out2.s()[i], conv1(x[i]));
                return;
            }
        }
        evals(2);
        sig(h);
    }
    if (cx.caseno == 0) {
        sample("400 mixed buffers incl. infinities");
    }
}

// ---------------------------------------------------------------- P16
static bool check_parms(const char* who, const mbe_parms& m, const char* nm, int k) {
#define FIN(x)                                                                                                 \
    if (!(fabs((double)(x)) <= 3.5e38)) {                                                                      \
        viol("not-finite", "%s step %d: %s state " #x " = %g", who, k, nm, (double)(x));                       \
        return false;                                                                                          \
    }
#define RNG(c, ...)                                                                                            \
    if (!(c)) {                                                                                                \
        char t_[160];                                                                                          \
        snprintf(t_, sizeof t_, __VA_ARGS__);                                                                  \
        viol("state-range", "%s step %d: %s state %s", who, k, nm, t_);                                        \
        return false;                                                                                          \
    }
    FIN(m.w0) FIN(m.gamma) FIN(m.localEnergy) FIN(m.errorRate) FIN(m.mutingThreshold) FIN(m.noiseSeed)
    for (int l = 0; l <= 56; l++) {
        FIN(m.Ml[l]) FIN(m.log2Ml[l]) FIN(m.PHIl[l]) FIN(m.PSIl[l])
        RNG(m.Vl[l] == 0 || m.Vl[l] == 1, "Vl[%d] = %d", l, m.Vl[l])
    }
    for (int i = 0; i < 256; i++) {
        FIN(m.previousUw[i])
    }
    for (int i = 0; i < 96; i++) {
        float x = m.noiseOverlap[i];
        RNG(x >= 0 && x <= 53124 && x == floorf(x), "noiseOverlap[%d] = %g", i, x)
    }
    RNG(m.L >= 9 && m.L <= 56, "L = %d", m.L)
    RNG(m.w0 >= 0 && m.w0 < 3.2, "w0 = %g", m.w0)
    RNG(m.K >= 0 && m.K <= 12, "K = %d", m.K)
    RNG(m.repeatCount >= 0 && m.repeatCount <= 4, "repeatCount = %d", m.repeatCount)
    RNG(m.repeat >= 0 && m.repeat <= 4, "repeat = %d", m.repeat)
    RNG(m.errorRate >= 0 && m.errorRate < 10, "errorRate = %g", m.errorRate)
    RNG(m.noiseSeed == -1.0f || (m.noiseSeed >= 0 && m.noiseSeed <= 53124 && m.noiseSeed == floorf(m.noiseSeed)), "noiseSeed = %g",
        m.noiseSeed)
    RNG(m.localEnergy >= 1000, "localEnergy = %g", m.localEnergy)
#undef FIN
#undef RNG
    return true;
}
static bool check_audio(const char* who, const CallRes& o, bool sh, int k) {
    for (int i = 0; i < 160; i++) {
        if (sh) {
            if (o.sh[i] > 31128 || o.sh[i] < -31128) {
                viol("sample-range", "%s step %d: 16-bit sample %d = %d", who, k, i, o.sh[i]);
                return false;
            }
        } else if (!(fabs((double)o.a[i]) <= CLIP * 1.000001)) {
            viol("sample-range", "%s step %d: float sample %d = %g (limit %.3f)", who, k, i, o.a[i], CLIP);
            return false;
        }
    }
    return true;
}
MODE(bounds) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    int codec = r.below(4), style = r.below(4), steps = cx.caseno % 1024 == 9 ? 12000 : 150;
    St st;
    st_init(L, st);
    Hist h(codec, r.uni());
    Hist h2(r.below(4), r.uni());
    static thread_local CallRes o;
    double maxlog = 0, peak = 0;
    uint8_t best[88] = {0};
    int script = 0;
    for (int k = 0; k < steps; k++) {
        Step s;
        (style == 3 && r.chance(0.3) ? h2 : h).next(r, s);
        if (style == 1) { // greedy: of several vectors take the one that pushes the predictor furthest up (or down)
            double bv = -1e300;
            bool up = (cx.caseno >> 2) & 1;
            for (int c = 0; c < 8; c++) {
                uint8_t d[88];
                if (c == 0 && k) {
                    memcpy(d, best, 88);
                } else if (c < 5 && k) {
                    memcpy(d, best, 88);
                    for (int q = r.below(5); q >= 0; q--) {
                        d[r.below(nbits(codec))] ^= 1;
                    }
                } else {
                    h.g.next(r, up ? LOUD : QUIET, d);
                }
                if (r.chance(0.2)) {
                    set_b0(codec, d, r.below(voice_b0s(codec)));
                }
                St t = st;
                if (dec_parms(L, codec, (const char*)d, &t.c, &t.p)) {
                    continue;
                }
                double v = 0, mx = -1e9;
                for (int l = 1; l <= t.c.L && l <= 56; l++) {
                    v += t.c.log2Ml[l];
                    mx = fmax(mx, t.c.log2Ml[l]);
                }
                v = up ? mx + v / t.c.L : -v / t.c.L;
                if (v > bv) {
                    bv = v;
                    memcpy(s.d, d, 88);
                }
            }
            memcpy(best, s.d, 88);
            s.frame = false;
            s.codec = codec;
            s.errs = s.errs2 = r.chance(0.1) ? r.below(8) : 0;
            CNT("greedy steps");
        } else if (style == 2 && !s.frame) {
            s.errs2 = r.chance(0.5) ? r.range(0, 580) : s.errs2; // sustained extreme error counts
            CNT("extreme error counts");
        }
        if (style >= 2 && script == 0 && r.chance(0.04)) {
            script = 4; // an erasure with an extreme error count, a repeat, a tone that copies the model back, a repeat
        }
        if (script > 0) {
            int c = style == 2 || r.chance(0.2) ? codec : script >= 3 ? A50 : A00;
            DGen g(c);
            g.next(r, script == 2 ? SPECIAL : VOICE, s.d);
            s.codec = c;
            s.frame = false;
            s.errs2 = script == 2 ? 0 : script == 4 ? r.range(60, 580) : r.range(4, 300);
            s.errs = script == 2 ? 0 : r.below(4);
            if (script == 4 && r.chance(0.8)) {
                set_b0(c, s.d, is_imbe(c) ? 208 : r.range(120, 123));
            }
            script--;
            CNT("extreme error scripts");
        }
        bool sh = r.chance(0.25);
        do_step(L, s, sh, st, o);
        char who[64];
        snprintf(who, sizeof who, "%s %s style %d", L.name, cname[s.codec], style);
        if (!check_audio(who, o, sh, k) || !check_parms(who, st.c, "current", k) || !check_parms(who, st.p, "previous", k)
            || !check_parms(who, st.e, "enhanced", k)) {
            return;
        }
        evals(4);
        for (int l = 1; l <= st.p.L; l++) {
            maxlog = fmax(maxlog, fabs((double)st.p.log2Ml[l]));
        }
        if (!sh) {
            for (float x : o.a) {
                peak = fmax(peak, fabs((double)x));
            }
        }
        sig(mix((uint64_t)(peak / 50) * 64 + (uint64_t)codec * 16 + (uint64_t)style, (uint64_t)(maxlog * 4) * 64 + (uint64_t)st.p.L));
    }
    if (peak > CLIP * 0.9999) {
        CNT("streams that reached the clip level");
    }
    CNT("streams");
    if (cx.caseno < 4) {
        sample("%s style %d: peak %.1f of %.1f, max |log2 M| %.2f over %d frames", cname[codec], style, peak, CLIP, maxlog, steps);
    }
}

// ---------------------------------------------------------------- P17
MODE(shorts) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    int codec = (int)(cx.caseno & 3);
    St st;
    st_init(L, st);
    Hist h(codec, 0.5), h2(r.below(4), 0.5);
    bool mixed = r.chance(0.15);
    static thread_local CallRes a, b;
    for (int k = 0; k < 60; k++) {
        Step s;
        (mixed && r.chance(0.15) ? h2 : h).next(r, s);
        uint32_t seed = r.u32();
        St sf = st, ss = st;
        memset(&b, 0x33, sizeof b);
        if (r.bit()) {
            L.f_setThreadRngSeed(seed);
            do_step(L, s, false, sf, a);
            L.f_setThreadRngSeed(seed);
            do_step(L, s, true, ss, b);
        } else {
            L.f_setThreadRngSeed(seed);
            do_step(L, s, true, ss, b);
            L.f_setThreadRngSeed(seed);
            do_step(L, s, false, sf, a);
        }
        const char* what = nullptr;
        int at = 0;
        for (int i = 0; i < 160 && !what; i++) {
            if (b.sh[i] != conv1(a.a[i])) {
                what = "sample";
                at = i;
            }
        }
        if (a.errs != b.errs || a.errs2 != b.errs2) {
            what = "error counts";
        } else if (strcmp(a.str, b.str)) {
            what = "status text";
        } else if (memcmp(a.d, b.d, 88)) {
            what = "parameter bits";
        } else if (memcmp(a.fr, b.fr, sizeof a.fr)) {
            what = "frame contents";
        } else if (memcmp(&sf, &ss, sizeof sf)) {
            what = "state";
        }
        if (what) {
            DiffBuf db;
            const char* t = diff_parms(sf.c, ss.c, true, db);
            viol("mismatch", "%s %s %s step %d: %s differs (sample %d: %d, converted float %d) %s", L.name, cname[codec],
                 s.frame ? "frame" : "data", k, what, at, b.sh[at], conv1(a.a[at]), t ? t : "");
            return;
        }
        evals(1);
        sig(mix(hashb(b.sh, 320), (uint64_t)codec));
        CNT(a.str[strspn(a.str, "=")] ? "marked frames" : "plain frames");
        st = sf;
        // stage-level pairs
        if (k % 6 == 0) {
            mbe_parms c1 = st.c, p1 = st.e, c2 = st.c, p2 = st.e;
            float f[160];
            short q[160], w[160];
            L.f_setThreadRngSeed(seed);
            L.f_synthesizeSpeechf(f, &c1, &p1, 3);
            L.f_setThreadRngSeed(seed);
            L.f_synthesizeSpeech(q, &c2, &p2, 3);
            bool ok = !memcmp(&c1, &c2, sizeof c1) && !memcmp(&p1, &p2, sizeof p1);
            for (int i = 0; i < 160; i++) {
                ok = ok && q[i] == conv1(f[i]);
            }
            if (!ok) {
                viol("mismatch-speech", "%s: 16-bit speech synthesis differs from the float one", L.name);
                return;
            }
            L.f_setThreadRngSeed(seed);
            L.f_synthesizeComfortNoisef(f);
            L.f_setThreadRngSeed(seed);
            L.f_synthesizeComfortNoise(q);
            for (int i = 0; i < 160; i++) {
                ok = ok && q[i] == conv1(f[i]);
            }
            L.f_floattoshort(f, w);
            ok = ok && !memcmp(w, q, sizeof q);
            memset(q, 0x55, sizeof q);
            L.f_synthesizeSilence(q);
            L.f_synthesizeSilencef(f);
            for (int i = 0; i < 160; i++) {
                ok = ok && q[i] == 0 && f[i] == 0;
            }
            if (!ok) {
                viol("mismatch-noise", "%s: 16-bit comfort noise or silence differs from the float one", L.name);
                return;
            }
            evals(3);
        }
        if (k == 20 && cx.caseno < 4) {
            sample("%s step 20: float[80]=%.5f -> %d", cname[codec], a.a[80], b.sh[80]);
        }
    }
}
