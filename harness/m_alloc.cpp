// P31 allocation failures, P32 bounded resources. The alloc flavours call these wrappers instead of the allocator.
#include <dirent.h>
#include <malloc.h>
#include "script.h"

struct Alloc {
    int mode;          // 0 off, 1 all, 2 first n, 3 every k-th, 4 burst [a,b), 5 only n, 6 random, 7 until told
    long a, b;
    uint64_t rng;
    long calls, failed, live, frees;
    long bytes;
};
static thread_local Alloc g_al;
static long g_live; // whole process
static bool al_fail() {
    Alloc& A = g_al;
    long i = A.calls++;
    bool f = false;
    switch (A.mode) {
        case 1:
        case 7: f = true; break;
        case 2: f = i < A.a; break;
        case 3: f = i % A.a == A.b % A.a; break;
        case 4: f = i >= A.a && i < A.b; break;
        case 5: f = i == A.a; break;
        case 6:
            A.rng = A.rng * 6364136223846793005ull + 1442695040888963407ull;
            f = (long)((A.rng >> 33) % 100) < A.a;
            break;
    }
    if (f) {
        A.failed++;
        errno = ENOMEM;
    }
    return f;
}
static void* al_got(void* p) {
    if (p) {
        g_al.live++;
        g_al.bytes += (long)malloc_usable_size(p);
        __atomic_fetch_add(&g_live, 1, __ATOMIC_RELAXED);
    }
    return p;
}
#define EXP extern "C" __attribute__((visibility("default"), used))
EXP void* __wrap_malloc(size_t n) { return al_fail() ? nullptr : al_got(malloc(n)); }
EXP void* __wrap_calloc(size_t a, size_t b) { return al_fail() ? nullptr : al_got(calloc(a, b)); }
EXP void __wrap_free(void* p) {
    if (p) {
        g_al.live--;
        g_al.frees++;
        g_al.bytes -= (long)malloc_usable_size(p);
        __atomic_fetch_sub(&g_live, 1, __ATOMIC_RELAXED);
    }
    free(p);
}
EXP void* __wrap_realloc(void* p, size_t n) {
    if (al_fail()) {
        return nullptr;
    }
    if (p) {
        g_al.live--;
        g_al.bytes -= (long)malloc_usable_size(p);
        __atomic_fetch_sub(&g_live, 1, __ATOMIC_RELAXED);
    }
    return al_got(realloc(p, n));
}
EXP int __wrap_posix_memalign(void** o, size_t a, size_t n) {
    if (al_fail()) {
        return ENOMEM;
    }
    int e = posix_memalign(o, a, n);
    if (!e) {
        al_got(*o);
    }
    return e;
}
EXP void* __wrap_aligned_alloc(size_t a, size_t n) { return al_fail() ? nullptr : al_got(aligned_alloc(a, n)); }
EXP void* __wrap_memalign(size_t a, size_t n) { return al_fail() ? nullptr : al_got(memalign(a, n)); }

struct Rec {
    Tr t;
    St pre, post;
    float a[160];
    char str[64];
};
struct Run {
    Lib* L;
    Script* S;
    uint32_t seed;
    Alloc plan;
    Rec* rec;
    long live[MAXATOM], failed[MAXATOM], calls[MAXATOM];
    int relax_at; // from this call on, memory is available (mode 7)
};
static void* oom_thread(void* v) {
    Run& R = *(Run*)v;
    g_al = R.plan;
    R.L->f_setThreadRngSeed(R.seed);
    Stream x;
    memset(&x, 0, sizeof x);
    St* st = (St*)calloc(1, sizeof(St));
    CallRes* o = (CallRes*)malloc(sizeof(CallRes));
    x.st = st;
    for (int i = 0; i < R.S->n; i++) {
        if (R.plan.mode == 7 && i == R.relax_at) {
            g_al.mode = 0;
        }
        Rec& r = R.rec[i];
        r.pre = *st;
        // audio buffers hold garbage before the call
        run_atom(*R.L, x, R.S->a[i], nullptr, r.t, *o, false);
        r.post = *st;
        for (int k = 0; k < 160; k++) {
            r.a[k] = R.S->a[i].sh && R.S->a[i].kind != A_TONE && R.S->a[i].kind != A_DSTAR ? o->sh[k] / 7.0f : o->a[k];
        }
        snprintf(r.str, sizeof r.str, "%s", R.S->a[i].kind == A_PROC ? o->str : "");
        R.live[i] = g_al.live;
        R.failed[i] = g_al.failed;
        R.calls[i] = g_al.calls;
    }
    free(o);
    free(st);
    return nullptr;
}
static void oom_run(Run& R) {
    pthread_t th;
    if (pthread_create(&th, nullptr, oom_thread, &R)) {
        _exit(90);
    }
    pthread_join(th, nullptr);
}
static void no_uw(mbe_parms& m) { memset(m.previousUw, 0, sizeof m.previousUw); }

MODE(oom) {
    Rng& r = cx.r;
    Lib& L = cx.lib((int)cx.caseno);
    static Script S;
    static Rec *r0, *r1;
    static Run A, B;
    if (!r0) {
        r0 = (Rec*)malloc(sizeof(Rec) * MAXATOM);
        r1 = (Rec*)malloc(sizeof(Rec) * MAXATOM);
    }
    int codec = r.below(4);
    script_gen(r, S, r.range(15, 50), 0, r.chance(0.1), codec, 0.1);
    if (r.chance(0.7)) { // mostly clean speech, so that recovery is seen
        DGen g(codec);
        for (int i = 1; i < S.n; i++) {
            if (S.a[i].kind == A_PROC && r.chance(0.8)) {
                step_gen(r, g, codec, r.bit(), r.chance(0.2) ? LOUD : VOICE, 0, S.a[i].s);
            }
        }
    }
    A.L = B.L = &L;
    A.S = B.S = &S;
    A.seed = B.seed = r.u32();
    memset(&A.plan, 0, sizeof A.plan);
    memset(&B.plan, 0, sizeof B.plan);
    A.rec = r0;
    B.rec = r1;
    Alloc& P = B.plan;
    switch (r.below(8)) {
        case 0: P.mode = 1; break;
        case 1: P.mode = 2; P.a = r.range(1, 80); break;
        case 2: P.mode = 3; P.a = r.range(1, 9); P.b = r.below(9); break;
        case 3: P.mode = 4; P.a = r.below(14); P.b = P.a + r.range(1, 60); break;
        case 4:
        case 5: P.mode = 5; P.a = r.below(10); break;
        case 6: P.mode = 6; P.a = r.range(5, 95); P.rng = r.u64(); break;
        default: P.mode = 7; B.relax_at = r.range(2, S.n - 1); break;
    }
    A.relax_at = -1;
    oom_run(A);
    oom_run(B);
    long steady = -1;
    int clean = 0, missed = 0;
    bool latched = false, had_plan = false;
    for (int i = 0; i < S.n; i++) {
        const Rec &x = r0[i], &y = r1[i];
        const Atom& a = S.a[i];
        bool proc = a.kind == A_PROC;
        evals(1);
        if (A.failed[i]) {
            continue;
        }
        if (x.t.tx != y.t.tx || x.t.spoke != y.t.spoke) {
            viol("result", "%s call %d (%s): counts, bits or text change when allocations fail ('%s' vs '%s')", L.name, i, akind_name(a.kind),
                 y.str, x.str);
            return;
        }
        for (int k = 0; k < 160; k++) {
            if (!(fabs(y.a[k]) <= CLIP * 1.0001 || !proc) || !(fabs(y.a[k]) < 1e9)) {
                viol("audio-range", "%s call %d (%s): sample %d is %g", L.name, i, akind_name(a.kind), k, (double)y.a[k]);
                return;
            }
        }
        // parameters and state, apart from the stored unvoiced segment
        St p = x.post, q = y.post;
        no_uw(p.c), no_uw(p.p), no_uw(p.e), no_uw(q.c), no_uw(q.p), no_uw(q.e);
        if (memcmp(&p, &q, sizeof p)) {
            DiffBuf db;
            const char* t = diff_parms(p.c, q.c, true, db);
            if (!t) {
                t = diff_parms(p.p, q.p, true, db);
            }
            if (!t) {
                t = diff_parms(p.e, q.e, true, db);
            }
            viol("parameters", "%s call %d (%s): state changes when allocations fail: %s", L.name, i, akind_name(a.kind), t ? t : "?");
            return;
        }
        // leaks
        bool plan = B.live[i] > 0;
        if (!plan && had_plan) {
            viol("lost", "%s call %d: memory held since an earlier call was given up", L.name, i);
            return;
        }
        if (plan && A.live[i] > 0 && B.live[i] != A.live[i]) {
            viol("leak", "%s call %d (%s): %ld blocks held, %ld without failures", L.name, i, akind_name(a.kind), B.live[i], A.live[i]);
            return;
        }
        if (plan && !had_plan && B.live[i] != A.live[S.n - 1]) {
            viol("leak", "%s call %d (%s): %ld blocks held after recovery, %ld without failures", L.name, i, akind_name(a.kind), B.live[i],
                 A.live[S.n - 1]);
            return;
        }
        if (steady >= 0 && B.live[i] != steady) {
            viol("leak", "%s call %d (%s): %ld blocks held, %ld before", L.name, i, akind_name(a.kind), B.live[i], steady);
            return;
        }
        if (plan) {
            steady = B.live[i];
        }
        if (!x.t.spoke) {
            if (a.kind == A_LAST && !latched) {
                clean = 0;
            }
            had_plan = plan;
            continue;
        }
        bool speech = proc && !strpbrk(x.str, "METR") && a.kind == A_PROC && memcmp(x.post.c.previousUw, x.pre.c.previousUw, 4 * 256);
        if (proc && a.s.codec == A00) { // tone indices that cannot be played leave no mark
            Dec dd;
            dec_2400(a.s.d, x.pre.p, dd);
            speech = speech && dd.ret == 0;
        }
        const char* marks = x.str + strspn(x.str, "=");
        bool silent_tone = !memcmp(x.a, y.a, sizeof x.a) && !speech;
        long before = i ? B.calls[i - 1] : 0;
        bool avail = P.mode == 7 ? i >= B.relax_at : P.mode == 5 ? before > P.a : P.mode == 2 ? before >= P.a : P.mode == 4 && before >= P.b;
        missed = !plan && avail ? missed + (speech && proc && !*marks) : 0;
        if (missed >= 2 && memcmp(x.a, y.a, sizeof x.a)) {
            viol("recovery", "%s call %d ('%s'): memory has been available for %d plain speech frames, but the noise-like part is still missing",
                 L.name, i, x.str, missed);
            return;
        }
        if (!plan) {
            clean = 0;
            if (speech && (proc && !*marks)) {
                // expected: the same frame without its unvoiced part
                double w[160] = {0}, cu[256], worst = 0, scale = 1;
                for (int k = 0; k < 256; k++) {
                    
                    cu[k] = x.post.c.previousUw[k];
                    scale = fmax(scale, fmax(fabs((double)x.pre.e.previousUw[k]), fabs(cu[k])));
                }
                bool clipped = false;
                static float zero[256];
                bool fresh = !is_imbe(a.s.codec) && fabs(x.pre.p.mutingThreshold - 0.096f) > 1e-6;
                md::wola(fresh ? zero : x.pre.e.previousUw, cu, w);
                for (int k = 0; k < 160; k++) {
                    clipped = clipped || fabs(x.a[k]) > CLIP * 0.999 || fabs(y.a[k]) > CLIP * 0.999;
                    worst = fmax(worst, fabs(x.a[k] - w[k] - y.a[k]));
                    scale = fmax(scale, fabs(x.a[k]));
                }
                if (!clipped) {
                    if (!(worst <= 1e-4 * scale + (a.sh ? 0.4 : 0.01))) {
                        viol("voiced-part", "%s call %d: without memory the frame differs from its voiced part by %g (scale %g) %s '%s' mt %g", L.name, i, worst,
                             scale, cname[a.s.codec], x.str, (double)x.pre.p.mutingThreshold);
                        return;
                    }
                    CNT("degraded frames equal to their voiced part");
                }
            } else if (memcmp(x.a, y.a, sizeof x.a) && *marks && strpbrk(marks, "MET")
                       && !memcmp(x.post.c.previousUw, x.pre.c.previousUw, 1024) && !memcmp(x.post.e.previousUw, x.pre.e.previousUw, 1024)) {
                viol("non-speech", "%s call %d: a muted, tone or erased frame changes when allocations fail", L.name, i);
                return;
            }
            CNT("calls decoded without memory");
        } else {
            if (proc && B.calls[i] >= 0) {
                bool plain = !*marks && speech;
                if (latched || (plain && clean >= 1)) {
                    if (memcmp(x.a, y.a, sizeof x.a)) {
                        viol("recovery", "%s call %d ('%s'): memory is back, but the audio still differs from a decoder that never failed", L.name,
                             i, x.str);
                        return;
                    }
                    if (B.failed[i]) {
                        CNT("frames exact after recovery");
                    }
                }
                clean = plain ? clean + 1 : latched ? clean : 0;
                if (clean >= 3) {
                    latched = true;
                }
                if (latched && memcmp(&x.post, &y.post, sizeof x.post)) {
                    viol("recovery", "%s call %d: memory is back, but the stored state still differs", L.name, i);
                    return;
                }
            }
        }
        (void)silent_tone;
        had_plan = plan;
    }
    if (B.failed[S.n - 1]) {
        CNT("runs with failing allocations");
        CNTN("failed allocations", B.failed[S.n - 1]);
    }
    sig(mix((uint64_t)P.mode * 1000 + (uint64_t)P.a, (uint64_t)P.b * 100 + (uint64_t)B.failed[S.n - 1]) ^ hashb(r1[S.n - 1].a, 640));
    if (cx.caseno < 3) {
        sample("%s pattern %d/%ld: %ld of %ld allocations failed over %d calls", L.name, P.mode, P.a, B.failed[S.n - 1], B.calls[S.n - 1], S.n);
    }
}

// ------------------------------------------------------------------ P32
extern thread_local long g_opened;
static int count_fds() {
    DIR* d = opendir("/proc/self/fd");
    int n = 0;
    while (d && readdir(d)) {
        n++;
    }
    if (d) {
        closedir(d);
    }
    return n;
}
static int count_threads() {
    DIR* d = opendir("/proc/self/task");
    int n = 0;
    while (d && readdir(d)) {
        n++;
    }
    if (d) {
        closedir(d);
    }
    return n;
}
static long vm_pages() {
    char b[100] = "";
    int fd = open("/proc/self/statm", O_RDONLY);
    ssize_t n = read(fd, b, sizeof b - 1);
    close(fd);
    (void)n;
    return atol(b);
}
struct Grow {
    Lib* L;
    Rng r;
    int codec;
    char bad[300];
    long calls, first, live, runs;
    int tasks;
};
static bool first_frame(Lib& L, St& st, CallRes& o, int codec, Rng& r) { // until something was synthesised
    DGen g(codec);
    Step s;
    for (int k = 0; k < 3; k++) {
        step_gen(r, g, codec, true, VOICE, 0, s);
        do_step(L, s, false, st, o);
    }
    return true;
}
static void* grow_thread(void* v) {
    Grow& G = *(Grow*)v;
    Lib& L = *G.L;
    Rng& r = G.r;
    memset(&g_al, 0, sizeof g_al);
    enum { NS = 4 };
    static thread_local St st[NS];
    CallRes* o = (CallRes*)malloc(sizeof(CallRes));
    Script* S = (Script*)malloc(sizeof(Script) * NS);
    St* many = (St*)malloc(sizeof(St) * 300);
    for (auto& s : st) {
        st_init(L, s);
    }
    first_frame(L, st[0], *o, G.codec, r);
    G.first = g_al.calls;
    G.live = g_al.live;
    const char* const opens = "asked the system for a file, mapping, thread or key";
    for (int k = 0; k < NS; k++) {
        script_gen(r, S[k], 140, 0.3, true, r.below(4), 0.3);
    }
    int fds = count_fds(), tasks = count_threads();
    (void)vm_pages();
    long vm = vm_pages();
    Stream x[NS];
    memset(x, 0, sizeof x);
    for (int k = 0; k < NS; k++) {
        x[k].st = &st[k];
    }
    Tr t;
    for (int i = 0; i < 140; i++) {
        for (int k = 0; k < NS; k++) {
            if (i < S[k].n) {
                long opened = g_opened;
                run_atom(L, x[k], S[k].a[i], nullptr, t, *o, false);
                G.calls++;
                if (g_opened != opened) {
                    snprintf(G.bad, sizeof G.bad, "call %ld (%s) %s", G.calls, akind_name(S[k].a[i].kind), opens);
                    goto out;
                }
                if (g_al.calls != G.first || g_al.live != G.live) {
                    snprintf(G.bad, sizeof G.bad, "call %ld (%s) made %ld allocation calls (blocks %ld -> %ld)", G.calls,
                             akind_name(S[k].a[i].kind), g_al.calls - G.first, G.live, g_al.live);
                    goto out;
                }
            }
        }
        if (i % 20 == 0) {
            L.f_setThreadRngSeed((uint32_t)i);
        }
    }
    // many short streams
    for (int k = 0; k < 300; k++) {
        long opened = g_opened;
        st_init(L, many[k]);
        run_atom(L, x[0], S[0].a[k % S[0].n], nullptr, t, *o, false);
        first_frame(L, many[k], *o, k & 3, r);
        G.calls += 3;
        if (g_opened != opened) {
            snprintf(G.bad, sizeof G.bad, "a further stream %s", opens);
            goto out;
        }
    }
    if (g_al.calls != G.first || g_al.live != G.live) {
        snprintf(G.bad, sizeof G.bad, "300 further streams made %ld allocation calls", g_al.calls - G.first);
        goto out;
    }
    // one thing many times over
    for (int k = 0; k < 4; k++) {
        int n = r.chance(0.1) ? 4000 : 400;
        int q = r.below(NS), i = r.below(S[q].n);
        for (int j = 0; j < n; j++) {
            long opened = g_opened;
            if (k == 0) {
                L.f_synthesizeComfortNoisef(o->a);
            } else if (k == 1 && r.bit()) {
                L.f_synthesizeComfortNoise(o->sh);
            } else {
                run_atom(L, x[q], S[q].a[i], nullptr, t, *o, false);
            }
            G.calls++;
            if (g_opened != opened) {
                snprintf(G.bad, sizeof G.bad, "call %d of %d like it (%s) %s", j, n,
                         k == 0 ? "comfort noise" : akind_name(S[q].a[i].kind), opens);
                goto out;
            }
            if (g_al.calls != G.first || g_al.live != G.live) {
                snprintf(G.bad, sizeof G.bad, "call %d of %d like it (%s) made %ld allocation calls", j, n,
                         k == 0 ? "comfort noise" : akind_name(S[q].a[i].kind), g_al.calls - G.first);
                goto out;
            }
        }
        G.runs++;
    }
    if (G.tasks == 1 && count_fds() != fds) {
        snprintf(G.bad, sizeof G.bad, "open files went from %d to %d", fds, count_fds());
    }
    if (G.tasks == 1 && count_threads() > tasks) {
        snprintf(G.bad, sizeof G.bad, "threads went from %d to %d", tasks, count_threads());
    }
    if (G.tasks == 1 && vm_pages() > vm) {
        snprintf(G.bad, sizeof G.bad, "address space grew from %ld to %ld pages", vm, vm_pages());
    }
out:
    free(many);
    free(S);
    free(o);
    return nullptr;
}
MODE(growth) {
    Rng& r = cx.r;
    int N = r.chance(0.7) ? 1 : r.range(2, 4);
    static Grow g[4];
    pthread_t th[4];
    for (int i = 0; i < N; i++) {
        memset((void*)&g[i], 0, sizeof g[i]);
        g[i].L = &cx.lib((int)cx.caseno);
        g[i].r = Rng(r.u64());
        g[i].codec = r.below(4);
        g[i].tasks = N;
    }
    for (int i = 0; i < N; i++) {
        if (pthread_create(&th[i], nullptr, grow_thread, &g[i])) {
            _exit(90);
        }
    }
    for (int i = 0; i < N; i++) {
        pthread_join(th[i], nullptr);
    }
    for (int i = 0; i < N; i++) {
        evals(g[i].calls);
        CNTN("calls after the first frame", g[i].calls);
        CNTN("allocations up to the first frame", g[i].first);
        CNTN("long runs of one call", g[i].runs);
        if (g[i].bad[0]) {
            viol("growth", "%s: %s", g[i].L->name, g[i].bad);
            return;
        }
        sig(mix((uint64_t)g[i].calls, g[i].r.u64()));
    }
    if (cx.caseno < 2) {
        sample("%d threads: %ld allocations up to the first frame, none in %ld further calls", N, g[0].first, g[0].calls);
    }
}
MODE(threadexit) {
    // what a finished thread leaves behind
    Rng& r = cx.r;
    static Grow g;
    int T = 6;
    long leaked = 0, plan = 0, more = 0;
    for (int i = 0; i < T; i++) {
        memset((void*)&g, 0, sizeof g);
        g.L = &cx.lib((int)cx.caseno);
        g.r = Rng(r.u64());
        g.codec = r.below(4);
        g.tasks = 0;
        long before = __atomic_load_n(&g_live, __ATOMIC_RELAXED);
        pthread_t th;
        if (pthread_create(&th, nullptr, grow_thread, &g)) {
            _exit(90);
        }
        pthread_join(th, nullptr);
        long left = __atomic_load_n(&g_live, __ATOMIC_RELAXED) - before;
        evals(1);
        sig(mix((uint64_t)left, g.r.u64()));
        CNT("finished threads");
        if (left > 0) {
            leaked++;
            plan = g.live;
            if (left > g.live) {
                more = left;
            }
        }
    }
    // threads that never synthesise keep nothing at all
    if (more) {
        viol("thread-exit-extra", "%s: a finished thread left %ld blocks, more than its transform plan (%ld)", cx.lib((int)cx.caseno).name, more, plan);
    }
    if (leaked) {
        viol("thread-exit-plan", "%s: %ld of %d finished threads left their transform plan (%ld blocks) allocated", cx.lib((int)cx.caseno).name,
             leaked, T, plan);
    }
}
