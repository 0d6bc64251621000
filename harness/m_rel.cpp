// P19 determinism, P20 interleaved streams, P29 initialisation: relational monitors over scripts of calls.
#include "script.h"
#include <sys/mman.h>

// ------------------------------------------------------------------ running a script somewhere
struct Job {
    Lib* L;
    const Script* S;
    bool seeded;
    uint32_t seed;
    Rng dirt;       // activity before seeding
    int ndirt;      // calls of it
    int off;        // address offset of the states
    bool garbage;   // states hold garbage before the first (initialising) atom
    unsigned amb;   // non-zero: clocks, environment, process identity and C library generators answer differently
    Tr t[MAXATOM];
};
static void dirty(Lib& L, Rng& r, int n, St* st) {
    if (!n) {
        return;
    }
    static thread_local Script* s;
    s = (Script*)malloc(sizeof(Script));
    Tr t;
    CallRes* o = (CallRes*)malloc(sizeof(CallRes));
    script_gen(r, *s, n, 0.5, true, r.below(4), 0.3);
    Stream x;
    memset(&x, 0, sizeof x);
    x.st = st;
    for (int i = 0; i < s->n; i++) {
        run_atom(L, x, s->a[i], nullptr, t, *o, false);
        if (r.chance(0.05)) {
            L.f_setThreadRngSeed(r.u32());
        }
    }
    // stop half way through a frame, on the very addresses that are used next
    int k = r.below(4);
    if (k == 1) {
        L.f_spectralAmpEnhance(&st->c);
    } else if (k == 2) {
        L.f_spectralAmpEnhance(&st->e);
    } else if (k == 3) {
        L.f_spectralAmpEnhance(&st->p);
    }
    free(o);
    free(s);
}
static void run_job(Job& j) {
    char* raw = (char*)malloc(sizeof(St) + 4096);
    St* st = (St*)(raw + (j.off & ~3));
    char* rawo = (char*)malloc(sizeof(CallRes) + 256);
    CallRes* o = (CallRes*)(rawo + ((unsigned)j.off * 13u & 252u)); // output buffers at any address a float may have, too
    memset(raw, 0, sizeof(St) + 4096);
    if (j.ndirt) {
        dirty(*j.L, j.dirt, j.ndirt, st);
    }
    if (j.garbage) {
        Rng g(j.dirt.u64());
        int kind = g.below(8);
        if (kind == 5 || kind == 7) { // some cells hold something, the others nothing
            uint32_t* w = (uint32_t*)st;
            float density = kind == 5 ? 2.0f : (float)g.uni();
            float holes = kind == 5 ? (float)g.uni() : 0.0f;
            for (size_t i = 0; i < sizeof(St) / 4; i++) {
                if (density < 1) {
                    w[i] = g.uni() < density ? g.u32() >> g.below(32) : 0;
                } else if (g.uni() < holes) {
                    w[i] = 0;
                }
            }
        } else if (kind == 6) { // a new stream but for a few cells
            st_init(*j.L, *st);
            for (int n = g.range(1, 12); n; n--) {
                float f = (float)(g.gauss() * 1000);
                memcpy((uint32_t*)st + g.below((int)(sizeof(St) / 4)), &f, 4);
            }
        } else if (kind < 2) { // any bytes
            for (size_t i = 0; i < sizeof(St); i++) {
                ((uint8_t*)st)[i] = kind ? 0xff : (uint8_t)g.u32();
            }
        } else if (kind == 2) {
            memset(st, 0, sizeof *st);
        } // else: whatever the dirty run left
    }
    g_ambient = j.amb;
    if (j.seeded) {
        j.L->f_setThreadRngSeed(j.seed);
    }
    Stream x;
    memset(&x, 0, sizeof x);
    x.st = st;
    for (int i = 0; i < j.S->n; i++) {
        run_atom(*j.L, x, j.S->a[i], nullptr, j.t[i], *o);
    }
    g_ambient = 0;
    free(rawo);
    free(raw);
}
static void* job_thread(void* v) {
    run_job(*(Job*)v);
    return nullptr;
}
static void run_in_thread(Job& j) {
    pthread_t th;
    if (pthread_create(&th, nullptr, job_thread, &j)) {
        _exit(90);
    }
    pthread_join(th, nullptr);
}
// in a child process; the trace comes back through shared memory
static bool run_in_process(Job& j) {
    size_t sz = sizeof(Job);
    Job* sh = (Job*)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memcpy((void*)sh, &j, sz);
    pid_t p = fork();
    if (p == 0) {
        void* pad = malloc((size_t)j.dirt.below(100000) + 1);
        (void)pad;
        run_in_thread(*sh); // a fresh thread of the new process
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    memcpy(&j, (void*)sh, sz);
    munmap(sh, sz);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) {
        viol("crash", "%s: a child process running the same calls ended with status %x", j.L->name, st);
        return false;
    }
    return true;
}
static uint64_t tr_hash(const Tr* t, int n) {
    uint64_t h = 7;
    for (int i = 0; i < n; i++) {
        h = mix(h, t[i].au ^ mix(t[i].tx, t[i].st));
    }
    return h;
}
static void make_det_script(Rng& r, Script& s) {
    script_gen(r, s, r.range(25, 60), 0.3, r.chance(0.3), r.below(4));
}

// helper process for `det`: prints the hash of one case's trace
MODE(dethelper) {
    Lib& L = cx.lib(0);
    static Script s;
    static Job j;
    Rng r(mix(cx.seed, (uint64_t)cx.caseno * 77 + 5));
    make_det_script(r, s);
    j = Job{&L, &s, true, r.u32(), Rng(1), 0, 0, false, (unsigned)getpid() % 1000 + 1, {}};
    run_job(j);
    char b[64];
    int n = snprintf(b, sizeof b, "HASH %016llx\n", (unsigned long long)tr_hash(j.t, s.n));
    if (write(1, b, (size_t)n) != n) {
        _exit(3);
    }
}

MODE(det) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    static Script s;
    static Job a, b;
    static const uint32_t special[] = {0, 1, 53125, 53124, 0xffffffffu, 0x80000000u};
    make_det_script(r, s);
    bool seeded = r.chance(0.8);
    uint32_t seed = r.chance(0.3) ? special[r.below(6)] : r.u32();
    a = Job{&L, &s, seeded, seed, Rng(1), 0, 0, false, 0, {}};
    run_in_thread(a);
    const char* what = "";
    int spoke = 0;
    for (int i = 0; i < s.n; i++) {
        spoke += a.t[i].spoke;
    }
    CNTN("audio blocks compared", spoke);
    for (int v = 0; v < 5; v++) {
        b = Job{&L, &s, seeded, seed, Rng(r.u64()), 0, r.below(4096), false, r.bit() ? (unsigned)r.range(1, 1000) : 0u, {}};
        if (b.amb) {
            CNT("runs with other clocks, environment and process identity");
        }
        const char* where;
        if (v == 0) {
            run_in_thread(b);
            where = "a second fresh thread";
            CNT("fresh threads");
        } else if (v == 1) {
            if (!seeded) {
                continue;
            }
            b.ndirt = r.range(1, 40);
            run_in_thread(b);
            where = "a thread that had decoded other streams";
            CNT("used threads");
        } else if (v == 2) {
            if (!seeded) {
                continue;
            }
            b.ndirt = r.below(10);
            run_job(b);
            where = "a long-lived thread";
            CNT("long-lived threads");
        } else if (v == 3) {
            if (!run_in_process(b)) {
                return;
            }
            where = "another process";
            CNT("forked processes");
        } else {
            if (!seeded || cx.caseno % 8) {
                continue;
            }
            // an independently started process (fresh address-space layout)
            Dl_info di;
            if (!dladdr((void*)L.f_versionString, &di)) {
                continue;
            }
            Rng hr(mix(cx.seed, (uint64_t)cx.caseno * 77 + 5));
            static Script s2;
            static Job c;
            make_det_script(hr, s2);
            c = Job{&L, &s2, true, hr.u32(), Rng(r.u64()), r.below(20), r.below(4096), false, 0, {}};
            run_in_thread(c);
            char cmd[1500], line[200] = "", exe[600];
            ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
            exe[n > 0 ? n : 0] = 0;
            snprintf(cmd, sizeof cmd, "PAD=%0*d '%s' dethelper --lib %s='%s' --only %ld --seed %llu --out /dev/null/x 2>/dev/null",
                     r.range(1, 900), 1, exe, L.name, di.dli_fname, cx.caseno, (unsigned long long)cx.seed);
            FILE* p = popen(cmd, "r");
            uint64_t h = 0;
            while (p && fgets(line, sizeof line, p)) {
                if (!strncmp(line, "HASH ", 5)) {
                    h = strtoull(line + 5, nullptr, 16);
                }
            }
            if (p) {
                pclose(p);
            }
            evals(1);
            if (!h) {
                viol("process", "%s: the same calls did not finish in another process", L.name);
            } else if (h != tr_hash(c.t, s2.n)) {
                viol("process", "%s: an independently started process decodes the same stream and seed differently", L.name);
            }
            CNT("independent processes");
            continue;
        }
        evals(spoke);
        int k = tr_diff(a.t, b.t, s.n, &what);
        if (k >= 0) {
            viol("differs", "%s: call %d (%s) %s: %s differs from the first run (seed %s%u)", L.name, k, akind_name(s.a[k].kind), where,
                 what, seeded ? "" : "none ", seed);
            return;
        }
    }
    sig(tr_hash(a.t, s.n));
    // seeds matter: another seed gives other comfort noise and another noise start
    if (seeded) {
        static Script c;
        c.n = 0;
        Step vs;
        DGen g(A50);
        step_gen(r, g, A50, false, VOICE, 0, vs);
        memset(&c.a[0], 0, sizeof(Atom) * 3);
        c.a[0].kind = A_INIT;
        c.a[1].kind = A_CN;
        c.a[2].kind = A_PROC;
        c.a[2].s = vs;
        c.n = 3;
        uint32_t s2 = r.bit() ? r.u32() : seed ^ (1u << r.below(32));
        a = Job{&L, &c, true, seed, Rng(1), 0, 0, false, 0, {}};
        b = Job{&L, &c, true, s2, Rng(1), 0, 0, false, 0, {}};
        run_in_thread(a);
        run_in_thread(b);
        evals(1);
        if (seed != s2 && a.t[1].au == b.t[1].au) {
            viol("seed-ignored", "%s: seeds %u and %u give the same comfort noise", L.name, seed, s2);
        }
        uint32_t e1 = (seed ? seed : 0x6d25357bu) % 53125, e2 = (s2 ? s2 : 0x6d25357bu) % 53125;
        if (e1 != e2 && a.t[2].st == b.t[2].st) {
            viol("seed-ignored", "%s: seeds %u and %u start the same unvoiced noise", L.name, seed, s2);
        }
        CNT("seed pairs");
    }
    if (cx.caseno < 2) {
        sample("%s seed %u: %d calls, %d audio blocks equal in every setting", L.name, seed, s.n, spoke);
    }
}

// ------------------------------------------------------------------ P29
MODE(initpast) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    static Script s;
    static Job a, b;
    // (1) explicit initialisation
    script_gen(r, s, r.range(12, 40), 0.3, r.chance(0.2), r.below(4));
    if (r.chance(0.3)) { // first call after init reads the new states directly
        static const int first[] = {A_SMOOTH, A_ENH, A_SYN, A_LAST, A_PRED};
        s.a[1].kind = first[r.below(5)];
        if (s.a[1].kind == A_SYN || s.a[1].kind == A_ENH) {
            s.a[1].kind = A_SMOOTH;
        }
    }
    uint32_t seed = r.u32();
    a = Job{&L, &s, true, seed, Rng(1), 0, 0, false, 0, {}};
    run_in_thread(a);
    for (int v = 0; v < 3; v++) {
        b = Job{&L, &s, true, seed, Rng(r.u64()), v == 0 ? 0 : r.range(1, 40), r.below(4096), true, 0, {}};
        if (v == 2) {
            run_job(b);
        } else {
            run_in_thread(b);
        }
        const char* what;
        int k = tr_diff(a.t, b.t, s.n, &what);
        evals(s.n);
        CNT(v ? "initialised after activity" : "initialised from garbage");
        if (k >= 0) {
            viol("init", "%s: call %d (%s) after initialisation: %s differs from a brand-new stream", L.name, k,
                 akind_name(s.a[k].kind), what);
            return;
        }
    }
    sig(tr_hash(a.t, s.n));
    // (2) a half-rate frame on state that was not half-rate
    {
        static Script h, f;
        int codec = r.bit() ? A50 : A00;
        script_gen(r, f, r.range(10, 30), 0, false, codec, 0);
        script_gen(r, h, r.range(2, 25), r.chance(0.3) ? 0.5 : 0, false, r.below(2), 0.1);
        // the fresh run: init + f; the other: init + IMBE history + f without its init
        static Script both;
        both.n = 0;
        for (int i = 0; i < h.n && both.n < MAXATOM; i++) {
            both.a[both.n++] = h.a[i];
        }
        int base = both.n;
        for (int i = 1; i < f.n && both.n < MAXATOM; i++) {
            both.a[both.n++] = f.a[i];
        }
        // seeds are set just before the half-rate part in both runs
        St* st = (St*)calloc(1, sizeof(St));
        static CallRes o;
        Stream x;
        memset(&x, 0, sizeof x);
        x.st = st;
        static Tr t0[MAXATOM], t1[MAXATOM];
        L.f_setThreadRngSeed(seed);
        for (int i = 0; i < f.n; i++) {
            run_atom(L, x, f.a[i], nullptr, t0[i], o);
        }
        memset(st, 0, sizeof *st);
        for (int i = 0; i < base; i++) {
            run_atom(L, x, both.a[i], nullptr, t1[0], o);
        }
        bool other = fabs(st->p.mutingThreshold - 0.096f) > 1e-6;
        L.f_setThreadRngSeed(seed);
        for (int i = base; i < both.n; i++) {
            run_atom(L, x, both.a[i], nullptr, t1[i - base + 1], o);
        }
        free(st);
        t1[0] = t0[0];
        if (other) {
            const char* what;
            int n = both.n - base + 1, k = tr_diff(t0, t1, n, &what);
            evals(n);
            CNT("codec changes to half rate");
            if (k >= 0) {
                viol("codec-change", "%s: %s frame %d after a full-rate history: %s differs from a brand-new stream", L.name, cname[codec],
                     k - 1, what);
                return;
            }
        }
    }
    if (cx.caseno < 2) {
        sample("%s: %d calls after initialisation equal a brand-new stream's", L.name, s.n);
    }
}

// ------------------------------------------------------------------ P20
// one stream in a thread of its own that was never seeded
struct Plain {
    Lib* L;
    const Script* S;
    Tr t[MAXATOM];
};
static void* plain_thread(void* v) {
    Plain& j = *(Plain*)v;
    St* st = (St*)calloc(1, sizeof(St));
    CallRes* o = (CallRes*)malloc(sizeof(CallRes));
    Comfort cf{Comfort::init(0, true)};
    Stream x;
    memset(&x, 0, sizeof x);
    x.st = st;
    for (int i = 0; i < j.S->n; i++) {
        run_atom(*j.L, x, j.S->a[i], &cf, j.t[i], *o);
    }
    free(o);
    free(st);
    return nullptr;
}
MODE(inter) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    enum { MS = 40 };
    static Script sc[MS];
    static Tr solo[MS][MAXATOM], mixt[MS][MAXATOM];
    static mbe_parms snapc[MS];
    static CallRes o;
    St* st[MS];
    Stream x[MS];
    bool crowd = r.chance(0.1); // more streams in one thread than any small table holds
    int K = crowd ? r.range(9, MS) : r.range(2, 5);
    double pst = r.bit() ? 0 : 0.5;
    bool loose = pst > 0 && r.chance(0.25); // foreign enhancement allowed between enhancement and synthesis
    St* block = (St*)calloc(MS, sizeof(St));
    // states whose addresses agree in their low bits
    size_t stride = r.chance(0.25) ? (size_t)1 << r.range(14, 24) : 0, arlen = stride * MS;
    uint8_t* arena = nullptr;
    if (stride) {
        arena = (uint8_t*)mmap(nullptr, arlen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (arena == (uint8_t*)MAP_FAILED) {
            _exit(90);
        }
        CNT("threads with states at equal low address bits");
    }
    for (int k = 0; k < K; k++) {
        script_gen(r, sc[k], crowd ? r.range(5, 16) : r.range(20, 60), pst, r.chance(0.15), r.below(4), 0.1);
        st[k] = arena ? (St*)(arena + (size_t)k * stride) : r.bit() ? &block[k] : (St*)calloc(1, sizeof(St));
        memset(&x[k], 0, sizeof x[k]);
        x[k].st = st[k];
    }
    uint32_t seed = r.u32();
    auto start = [&](Comfort& cf) { // seed the thread, let a throw-away stream take the one-shot noise start
        L.f_setThreadRngSeed(seed);
        cf.s = Comfort::init(seed, false);
        static St w;
        st_init(L, w);
        Step s;
        DGen g(I72);
        Rng q(1);
        step_gen(q, g, I72, false, VOICE, 0, s);
        do_step(L, s, false, w, o);
    };
    Comfort cf;
    start(cf);
    long cn = 0, blocks = 0;
    for (int k = 0; k < K; k++) {
        for (int i = 0; i < sc[k].n; i++) {
            run_atom(L, x[k], sc[k].a[i], &cf, solo[k][i], o);
            cn += solo[k][i].cn;
            blocks += solo[k][i].spoke;
        }
    }
    // interleaved
    for (int k = 0; k < K; k++) {
        memset(st[k], r.bit() ? 0 : 0x5a, sizeof(St));
        memset(&x[k], 0, sizeof x[k]);
        x[k].st = st[k];
    }
    start(cf);
    // the seed went to the throw-away stream alone: every later stream starts like one in a thread that was never seeded
    {
        static Plain pj;
        int k = r.below(K);
        pj.L = &L;
        pj.S = &sc[k];
        pthread_t th;
        if (pthread_create(&th, nullptr, plain_thread, &pj)) {
            _exit(90);
        }
        pthread_join(th, nullptr);
        const char* what = "";
        int d = tr_diff(solo[k], pj.t, sc[k].n, &what);
        evals(sc[k].n);
        CNT("streams compared with an unseeded thread");
        if (d >= 0) {
            viol("later-stream", "%s: stream started after the seeded one, call %d (%s): %s differs from a thread that was never seeded",
                 L.name, d, akind_name(sc[k].a[d].kind), what);
            return;
        }
    }
    int pos[MS] = {0}, left = K, style = r.below(4), last = 0, owner = -1;
    uint64_t order = 1;
    while (left) {
        int k;
        do {
            k = style == 0 ? (last + 1) % K : style == 1 && r.chance(0.7) ? last : r.below(K);
            if (style == 0 || pos[last] >= sc[last].n) {
                last = (last + 1) % K;
            }
        } while (pos[k] >= sc[k].n);
        // an enhanced but not yet synthesised model belongs to `owner`; foreign enhancement would take over the hand-over
        const Atom& A = sc[k].a[pos[k]];
        bool enh = A.kind == A_PROC || A.kind == A_ENH; // smoothing a foreign model that was not enhanced must not take it
        if (!loose && owner >= 0 && owner != k && enh) {
            k = owner;
        }
        const Atom& B = sc[k].a[pos[k]];
        if (owner < 0 && r.chance(0.01)) { // the thread is seeded anew, and a new stream starts
            seed = r.u32();
            start(cf);
            CNT("thread reseeded between streams' calls");
        }
        run_atom(L, x[k], B, &cf, mixt[k][pos[k]], o);
        if (B.kind == A_ENH) {
            owner = k;
        } else if (owner == k) {
            owner = -1;
        }
        order = mix(order, (uint64_t)k * 1000 + (uint64_t)pos[k]);
        if (++pos[k] >= sc[k].n) {
            left--;
        }
        last = k;
        CNT("interleaved calls");
    }
    sig(order);
    for (int k = 0; k < K; k++) {
        const char* what = "";
        int d;
        if (loose) { // everything discrete must agree; the local-energy tracker may round differently
            d = -1;
            for (int i = 0; i < sc[k].n && d < 0; i++) {
                int kd = sc[k].a[i].kind;
                if ((kd == A_PROC || kd <= A_DEC) && solo[k][i].tx != mixt[k][i].tx) {
                    d = i;
                    what = "counts, bits or text";
                }
                if (solo[k][i].cn != mixt[k][i].cn) {
                    d = i;
                    what = "comfort noise or not";
                }
                double e = solo[k][i].le, f = mixt[k][i].le;
                if (!(fabs(e - f) <= 1e-3 * fmax(fabs(e), fabs(f)))) {
                    d = i;
                    what = "local energy";
                }
            }
            CNT("streams with foreign enhancement in between");
        } else {
            d = tr_diff(solo[k], mixt[k], sc[k].n, &what);
        }
        evals(sc[k].n);
        if (d >= 0) {
            viol(loose ? "interleaved-discrete" : "interleaved", "%s: stream %d of %d, call %d (%s): %s differs from the stream alone",
                 L.name, k, K, d, akind_name(sc[k].a[d].kind), what);
            break;
        }
    }
    CNTN("comfort-noise blocks", cn);
    CNTN("own audio blocks", blocks - cn);
    if (crowd) {
        CNT("threads with 9 to 40 streams");
    }
    if (cx.caseno < 2) {
        sample("%s: %d streams, %ld audio blocks (%ld of them shared comfort noise) unchanged by interleaving", L.name, K, blocks, cn);
    }
    for (int k = 0; k < K; k++) {
        if (!arena && (st[k] < block || st[k] >= block + MS)) {
            free(st[k]);
        }
    }
    if (arena) {
        munmap(arena, arlen);
    }
    free(block);
    (void)snapc;
}
// the one-shot noise start that seeding gives away goes to the next stream that starts, whatever the streams already running do first
MODE(oneshot) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    static Script run, neu;
    static Tr t[MAXATOM], solo[MAXATOM], after[MAXATOM];
    static CallRes o;
    int codec = r.below(4);
    script_gen(r, run, r.range(60, 150), r.bit() ? 0 : 0.4, false, codec, 0.4);
    script_gen(r, neu, r.range(10, 40), r.bit() ? 0 : 0.4, r.chance(0.2), r.below(4), 0.1);
    uint32_t seed = r.chance(0.1) ? 0 : r.u32();
    auto fresh = [](Stream& x, St* st, int fill) {
        memset(st, fill, sizeof *st);
        memset(&x, 0, sizeof x);
        x.st = st;
    };
    static St sa, sb, sc;
    Stream a, b, c;
    Comfort cf;
    // the new stream right after seeding
    L.f_setThreadRngSeed(seed);
    cf.s = Comfort::init(seed, false);
    fresh(a, &sa, 0);
    for (int i = 0; i < neu.n; i++) {
        run_atom(L, a, neu.a[i], &cf, solo[i], o);
    }
    // another stream gets going
    L.f_setThreadRngSeed(r.u32());
    fresh(b, &sb, r.bit() ? 0 : 0x5a);
    int i = 0, warm = r.range(8, run.n - 20), own = 0, cn = 0;
    for (; i < warm || (i < run.n && (sb.c.noiseSeed < 0 || sb.p.noiseSeed < 0 || sb.e.noiseSeed < 0)); i++) {
        run_atom(L, b, run.a[i], nullptr, t[i], o);
    }
    // the thread is seeded, the running stream goes on, and only then the new stream starts
    L.f_setThreadRngSeed(seed);
    cf.s = Comfort::init(seed, false);
    int more = r.range(1, 30);
    for (; i < run.n && more > 0; i++) {
        const Atom& A = run.a[i];
        double s[3] = {sb.c.noiseSeed, sb.p.noiseSeed, sb.e.noiseSeed};
        if (A.kind == A_INIT) {
            continue;
        }
        if (s[0] < 0 || s[1] < 0 || s[2] < 0) {
            break; // it would start anew itself
        }
        run_atom(L, b, A, &cf, t[i], o);
        more--;
        own += t[i].spoke && !t[i].cn && (A.kind == A_PROC || A.kind == A_SYN);
        cn += t[i].cn;
        double now = sb.c.noiseSeed;
        bool known = now < 0;
        for (double v : s) {
            uint32_t w = (uint32_t)v % 53125u;
            for (int k = 0; k < 160; k++) {
                w = (171u * w + 11213u) % 53125u;
            }
            known |= now == v || now == (double)w;
        }
        if (!known) { // the call itself restarted the stream
            CNT("running stream restarted within a call");
            return;
        }
    }
    if (!own && !cn) {
        return;
    }
    fresh(c, &sc, r.bit() ? 0 : 0x5a);
    for (int k = 0; k < neu.n; k++) {
        run_atom(L, c, neu.a[k], &cf, after[k], o);
    }
    const char* what = "";
    int d = tr_diff(solo, after, neu.n, &what);
    evals(neu.n);
    CNTN("running stream's own blocks between seeding and the start", own);
    CNTN("comfort-noise blocks between seeding and the start", cn);
    sig(mix(mix(solo[neu.n - 1].st, (uint64_t)own), (uint64_t)cn));
    if (d >= 0) {
        viol("seed-goes-astray", "%s: seed %u, then %d own and %d comfort-noise blocks of a running %s stream, then a new stream: call %d "
             "(%s): %s differs from the stream started right after seeding", L.name, seed, own, cn, cname[codec], d,
             akind_name(neu.a[d].kind), what);
        return;
    }
    if (cx.caseno < 2) {
        sample("%s: new stream after %d blocks of a running one starts from the seed given before", L.name, own);
    }
}
