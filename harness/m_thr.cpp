// P21: concurrent decoding. Every trial is a fresh process, so that first-use initialisation races too.
#include <sched.h>
#include "script.h"

struct Th {
    Lib* L;
    const Script* S;
    int nscripts;
    bool seeded[3];
    uint32_t seed[3];
    pthread_barrier_t* bar;
    int wait;       // barrier before the first call
    uint64_t jitter;
    int* order;     // shared log of who moved when (relaxed)
    int* norder;
    int id;
    Tr t[3][MAXATOM];
    St* st;         // adjacent blocks: neighbours share cache lines
};
enum { MAXORD = 4096 };
static void th_body(Th& j, bool concurrent) {
    CallRes* o = (CallRes*)malloc(sizeof(CallRes));
    Rng jr(j.jitter);
    if (concurrent && j.wait) {
        pthread_barrier_wait(j.bar);
    }
    for (int q = 0; q < j.nscripts; q++) {
        if (j.seeded[q]) {
            j.L->f_setThreadRngSeed(j.seed[q]);
        }
        Stream x;
        memset(&x, 0, sizeof x);
        x.st = j.st;
        memset(j.st, 0, sizeof *j.st);
        for (int i = 0; i < j.S[q].n; i++) {
            if (concurrent) {
                int k = __atomic_fetch_add(j.norder, 1, __ATOMIC_RELAXED);
                if (k < MAXORD) {
                    __atomic_store_n(&j.order[k], j.id, __ATOMIC_RELAXED);
                }
                if (jr.chance(0.05)) {
                    sched_yield();
                }
            }
            run_atom(*j.L, x, j.S[q].a[i], nullptr, j.t[q][i], *o);
        }
    }
    free(o);
}
static void* th_conc(void* v) {
    th_body(*(Th*)v, true);
    return nullptr;
}
static void* th_solo(void* v) {
    th_body(*(Th*)v, false);
    return nullptr;
}
static void spawn_thread(pthread_t* t, void* (*f)(void*), Th* j) {
    if (pthread_create(t, nullptr, f, j)) {
        _exit(90);
    }
}

struct TrialOut {
    int done, bad, k, q, thr, kind, crowd;
    char what[60];
    uint64_t order;
    long calls;
    int switches;
};
static void trial(Lib& L, Rng& r, TrialOut* out) {
    enum { MT = 64 };
    bool crowd = r.chance(0.05); // more streams than any small per-thread table holds
    int N = crowd ? r.range(17, MT) : r.range(2, 8);
    out->crowd = crowd;
    static Script sc[MT][3];
    static Th a[MT], b[MT];
    static int order[MAXORD], norder;
    St* st = (St*)malloc(sizeof(St) * MT);
    pthread_barrier_t bar;
    int first = r.below(3); // 0 everybody starts with the same kind of call, 1 anything, 2 late starters
    int late = first == 2 ? r.range(1, N - 1) : 0;
    int fk = r.below(6);
    for (int i = 0; i < N; i++) {
        Th& t = a[i];
        memset(&t, 0, sizeof t);
        t.L = &L;
        t.nscripts = crowd ? 1 : r.range(1, 3);
        for (int q = 0; q < t.nscripts; q++) {
            script_gen(r, sc[i][q], crowd ? r.range(4, 10) : r.range(6, 20), r.chance(0.5) ? 0.5 : 0, r.chance(0.3), r.below(4), 0.25);
            t.seeded[q] = r.chance(0.5);
            t.seed[q] = r.u32();
            if (q == 0 && first == 0 && sc[i][q].n > 2) {
                static const int k1[] = {A_CN, A_PROC, A_TONE, A_C0, A_SIL, A_PROC};
                Atom& A = sc[i][q].a[1];
                int old = A.kind;
                if (k1[fk] != A_PROC || old == A_PROC) {
                    A.kind = k1[fk];
                }
                A.sh = fk & 1;
                t.seeded[q] = fk == 2;
            }
        }
        t.S = sc[i];
        t.bar = &bar;
        t.wait = i >= late;
        t.jitter = r.u64();
        t.order = order;
        t.norder = &norder;
        t.id = i;
        t.st = &st[i];
        b[i] = t;
    }
    pthread_barrier_init(&bar, nullptr, (unsigned)(N - late));
    bool solo_first = r.chance(0.3);
    pthread_t th[MT];
    auto solos = [&]() {
        for (int i = 0; i < N; i++) {
            spawn_thread(&th[0], th_solo, &b[i]);
            pthread_join(th[0], nullptr);
        }
    };
    if (solo_first) {
        solos();
    }
    for (int i = late; i < N; i++) {
        spawn_thread(&th[i], th_conc, &a[i]);
    }
    for (int i = 0; i < late; i++) { // created while the others run; threads also end at different times
        spawn_thread(&th[i], th_conc, &a[i]);
    }
    for (int i = 0; i < N; i++) {
        pthread_join(th[i], nullptr);
    }
    if (!solo_first) {
        solos();
    }
    int n = norder < MAXORD ? norder : MAXORD;
    out->order = hashb(order, (size_t)n * sizeof(int));
    for (int i = 1; i < n; i++) {
        out->switches += order[i] != order[i - 1];
    }
    for (int i = 0; i < N && !out->bad; i++) {
        for (int q = 0; q < a[i].nscripts && !out->bad; q++) {
            out->calls += sc[i][q].n;
            if (q > 0 && !a[i].seeded[q]) {
                // still deterministic: same thread, same preceding calls
            }
            const char* w = "";
            int k = tr_diff(b[i].t[q], a[i].t[q], sc[i][q].n, &w);
            if (k >= 0) {
                out->bad = 1;
                out->k = k;
                out->q = q;
                out->thr = i;
                out->kind = sc[i][q].a[k].kind;
                snprintf(out->what, sizeof out->what, "%s", w);
            }
        }
    }
    out->done = 1;
    free(st);
}

MODE(threads) {
    Rng& r = cx.r;
    TrialOut* out = (TrialOut*)mmap(nullptr, sizeof(TrialOut), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Lib& L = cx.lib((int)cx.caseno);
    pid_t p = fork();
    if (p == 0) {
        trial(L, r, out);
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 66 || WEXITSTATUS(st) == 77)) { // the race report is in this worker's log: let the parent pick it up
        fflush(stderr);
        _exit(66);
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 90) {
        _exit(90);
    }
    if (WIFSIGNALED(st) || !out->done) {
        viol("crash", "%s: concurrent decoding ended with status 0x%x", L.name, st);
    } else if (out->bad) {
        viol("differs", "%s: thread %d, stream %d, call %d (%s): %s differs from the thread's solo run", L.name, out->thr, out->q, out->k,
             akind_name(out->kind), out->what);
    }
    evals(out->calls);
    CNTN("concurrent calls", out->calls);
    CNTN("thread switches", out->switches);
    CNT("fresh-process trials");
    if (out->crowd) {
        CNT("trials with 17 to 64 threads");
    }
    sig(out->order);
    munmap(out, sizeof *out);
}
