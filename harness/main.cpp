#include "hx.h"
#include <sched.h>

Shared* g_sh;
long g_case = -1;
bool g_verbose = false;
const char* g_tier = "quick";

static Mode g_modes[128];
static int g_nmodes;
void reg_mode(const char* name, ModeFn fn) { g_modes[g_nmodes++] = {name, fn}; }

static struct {
    const char* n;
    long v;
} g_cnt[160];
static int g_ncnt;
void cnt_add(const char* name, long n) {
    for (int i = 0; i < g_ncnt; i++) {
        if (g_cnt[i].n == name || !strcmp(g_cnt[i].n, name)) {
            g_cnt[i].v += n;
            return;
        }
    }
    if (g_ncnt < 160) {
        g_cnt[g_ncnt].n = strdup(name);
        g_cnt[g_ncnt++].v = n;
    }
}
static long g_evals;
void evals(long n) { g_evals += n; }

#define SIGCAP (1u << 18)
static uint64_t* g_sig;
static unsigned g_nsig;
void sig(uint64_t h) {
    if (!h) {
        h = 1;
    }
    if (g_nsig >= SIGCAP / 2) {
        return;
    }
    unsigned i = (unsigned)(h >> 20) & (SIGCAP - 1);
    while (g_sig[i]) {
        if (g_sig[i] == h) {
            return;
        }
        i = (i + 1) & (SIGCAP - 1);
    }
    g_sig[i] = h;
    g_nsig++;
}
static char g_samples[6][400];
static int g_nsamples;
void sample(const char* fmt, ...) {
    if (g_nsamples >= 6) {
        return;
    }
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(g_samples[g_nsamples++], 400, fmt, ap);
    va_end(ap);
}

void viol(const char* key, const char* fmt, ...) {
    char buf[600];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    int k = __sync_fetch_and_add(&g_sh->nviol, 1);
    if (k < 128) {
        ViolRec& v = g_sh->v[k];
        v.caseno = g_case;
        snprintf(v.key, sizeof v.key, "%s", key);
        snprintf(v.msg, sizeof v.msg, "%s", buf);
    }
    if (k > 40) {
        g_sh->stop = 1;
    }
    if (g_verbose) {
        fprintf(stderr, "VIOL case=%ld %s: %s\n", g_case, key, buf);
    }
}

static void dump_stats(const char* out, int w, int gen) {
    char p[1024];
    snprintf(p, sizeof p, "%s.w%d.%d.txt", out, w, gen);
    FILE* f = fopen(p, "w");
    if (!f) {
        return;
    }
    fprintf(f, "E %ld\n", g_evals);
    for (int i = 0; i < g_ncnt; i++) {
        fprintf(f, "C %ld %s\n", g_cnt[i].v, g_cnt[i].n);
    }
    for (int i = 0; i < g_nsamples; i++) {
        fprintf(f, "S %s\n", g_samples[i]);
    }
    fclose(f);
    snprintf(p, sizeof p, "%s.w%d.%d.sig", out, w, gen);
    f = fopen(p, "wb");
    for (unsigned i = 0; i < SIGCAP; i++) {
        if (g_sig[i]) {
            fwrite(&g_sig[i], 8, 1, f);
        }
    }
    fclose(f);
}

static void run_case(Mode* m, Cx& cx, long i, uint64_t seed) {
    g_case = i;
    cx.caseno = i;
    cx.r = Rng(mix(mix(seed, hashs(m->name)), (uint64_t)i));
    m->fn(cx);
}

static int load_lib(Lib& L, char* spec) {
    char* eq = strchr(spec, '=');
    *eq = 0;
    L.name = spec;
    L.h = dlopen(eq + 1, RTLD_NOW | RTLD_LOCAL);
    if (!L.h) {
        fprintf(stderr, "dlopen: %s\n", dlerror());
        return 0;
    }
#define X(n)                                                                                                   \
    *(void**)&L.f_##n = dlsym(L.h, "mbe_" #n);                                                                 \
    if (!L.f_##n) {                                                                                            \
        fprintf(stderr, "missing mbe_" #n "\n");                                                               \
        return 0;                                                                                              \
    }
    HX_API(X)
#undef X
    return 1;
}

struct Worker {
    pid_t pid;
    int gen;
};

static Cx cx{};
static Lib libs[10];
static char* specs[10];
static char logp[1024];

static int child_body(Mode* m, int w, int gen, const char* out, long only, long ncases, uint64_t seed) {
    snprintf(logp, sizeof logp, "%s.w%d.%d.log", out, w, gen);
    int fd = open(logp, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (!g_verbose) {
        dup2(fd, 2);
    }
    g_sig = (uint64_t*)mmap(nullptr, SIGCAP * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < cx.nlib; i++) {
        if (!load_lib(libs[i], strdup(specs[i]))) {
            return 90;
        }
    }
    if (only >= 0) {
        g_sh->cur[w] = only;
        g_sh->start[w] = nowsec();
        run_case(m, cx, only, seed);
        g_sh->done++;
    } else {
        for (;;) {
            if (g_sh->stop) {
                break;
            }
            long i = __sync_fetch_and_add(&g_sh->next, 1);
            if (i >= ncases) {
                break;
            }
            g_sh->cur[w] = i;
            g_sh->start[w] = nowsec();
            run_case(m, cx, i, seed);
            __sync_fetch_and_add(&g_sh->done, 1);
        }
    }
    g_sh->cur[w] = -1;
    dump_stats(out, w, gen);
    return 0;
}

static pid_t spawn(Mode* m, int w, int gen, const char* out, long only, long ncases, uint64_t seed) {
    fflush(stdout);
    g_sh->cur[w] = -2;
    g_sh->start[w] = nowsec();
    pid_t p = fork();
    if (p == 0) {
        int rc = child_body(m, w, gen, out, only, ncases, seed);
        fflush(stdout);
        fflush(stderr);
        _exit(rc);
    }
    return p;
}

static void crash_key(const char* out, int w, int gen, int st, char* key, size_t kn, char* msg, size_t mn) {
    char p[1024], line[2048];
    snprintf(p, sizeof p, "%s.w%d.%d.log", out, w, gen);
    FILE* f = fopen(p, "r");
    char first[500] = "", summ[300] = "";
    while (f && fgets(line, sizeof line, f)) {
        line[strcspn(line, "\n")] = 0;
        if (strstr(line, "runtime error:") && !first[0]) {
            snprintf(first, sizeof first, "%s", line);
        } else if (strstr(line, "ERROR: ") && !first[0]) {
            snprintf(first, sizeof first, "%s", line);
        } else if (strstr(line, "WARNING: ") && strstr(line, "Sanitizer") && !first[0]) {
            snprintf(first, sizeof first, "%s", line);
        }
        if (strstr(line, "SUMMARY:") && !summ[0]) {
            snprintf(summ, sizeof summ, "%s", line);
        }
    }
    if (f) {
        fclose(f);
    }
    if (summ[0] || first[0]) {
        const char* s = summ[0] ? strstr(summ, "SUMMARY:") : first;
        char tmp[300];
        snprintf(tmp, sizeof tmp, "%s", s);
        // strip paths and line numbers so the key is stable
        char k2[96];
        size_t o = 0;
        for (char* c = tmp; *c && o < 80; c++) {
            if (*c == '/') {
                char* e = c;
                while (*e && *e != ' ' && *e != ':') {
                    e++;
                }
                char* b = e;
                while (b > c && b[-1] != '/') {
                    b--;
                }
                while (b < e && o < 80) {
                    k2[o++] = *b++;
                }
                while (*e == ':' || (*e >= '0' && *e <= '9')) {
                    e++;
                }
                c = e - 1;
            } else {
                k2[o++] = *c == ' ' ? '_' : *c;
            }
        }
        k2[o] = 0;
        snprintf(key, kn, "crash:%s", k2);
    } else if (WIFSIGNALED(st)) {
        snprintf(key, kn, "crash:signal%d", WTERMSIG(st));
    } else {
        snprintf(key, kn, "crash:exit%d", WEXITSTATUS(st));
    }
    snprintf(msg, mn, "%.380s | %.180s", first, summ);
}

int main(int argc, char** argv) {
    const char* mode = argc > 1 ? argv[1] : "";
    const char* out = "/tmp/hx";
    long ncases = 100, only = -1;
    uint64_t seed = 1;
    int jobs = 8;
    double hang = 60;
    for (int i = 2; i < argc; i++) {
        if (!strcmp(argv[i], "--lib")) {
            specs[cx.nlib++] = argv[++i];
        } else if (!strcmp(argv[i], "--cases")) {
            ncases = atol(argv[++i]);
        } else if (!strcmp(argv[i], "--seed")) {
            seed = strtoull(argv[++i], nullptr, 10);
        } else if (!strcmp(argv[i], "--jobs")) {
            jobs = atoi(argv[++i]);
        } else if (!strcmp(argv[i], "--out")) {
            out = argv[++i];
        } else if (!strcmp(argv[i], "--only")) {
            only = atol(argv[++i]);
        } else if (!strcmp(argv[i], "--hang")) {
            hang = atof(argv[++i]);
        } else if (!strcmp(argv[i], "--tier")) {
            g_tier = argv[++i];
        } else if (!strcmp(argv[i], "-v")) {
            g_verbose = true;
        }
    }
    Mode* m = nullptr;
    for (int i = 0; i < g_nmodes; i++) {
        if (!strcmp(g_modes[i].name, mode)) {
            m = &g_modes[i];
        }
    }
    if (!m || !cx.nlib) {
        fprintf(stderr, "unknown mode %s or no lib\n", mode);
        for (int i = 0; i < g_nmodes; i++) {
            fprintf(stderr, " %s", g_modes[i].name);
        }
        fprintf(stderr, "\n");
        return 99;
    }
    cx.libs = libs;
    cx.seed = seed;
    cx.ncases = ncases;
    g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (jobs > 60) {
        jobs = 60;
    }
    if (only >= 0) {
        jobs = 1;
    }
    Worker ws[64];
    int alive = 0, crashes = 0, harness_err = 0;
    long hang_case = -1;
    for (int w = 0; w < jobs; w++) {
        ws[w] = {spawn(m, w, 0, out, only, ncases, seed), 0};
        alive++;
    }
    double lastprog = nowsec();
    while (alive > 0) {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            for (int w = 0; w < jobs; w++) {
                if (ws[w].pid != p) {
                    continue;
                }
                alive--;
                ws[w].pid = 0;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                    break;
                }
                if (hang_case >= 0) {
                    break;
                }
                if ((WIFEXITED(st) && WEXITSTATUS(st) == 90) || g_sh->cur[w] == -2) {
                    harness_err = 1;
                    break;
                }
                char key[96], msg[600];
                crash_key(out, w, ws[w].gen, st, key, sizeof key, msg, sizeof msg);
                g_case = g_sh->cur[w];
                viol(key, "%s", msg);
                crashes++;
                if (only < 0 && crashes < 4) {
                    ws[w].gen++;
                    ws[w].pid = spawn(m, w, ws[w].gen, out, -1, ncases, seed);
                    alive++;
                } else {
                    g_sh->stop = 1;
                }
                break;
            }
            continue;
        }
        double t = nowsec();
        for (int w = 0; w < jobs; w++) {
            if (ws[w].pid && g_sh->cur[w] >= 0 && t - g_sh->start[w] > hang && hang_case < 0) {
                hang_case = g_sh->cur[w];
                for (int k = 0; k < jobs; k++) {
                    if (ws[k].pid) {
                        kill(ws[k].pid, SIGKILL);
                    }
                }
            }
        }
        (void)lastprog;
        struct timespec ts = {0, 5000000};
        nanosleep(&ts, nullptr);
    }
    int inconclusive = 0;
    if (hang_case >= 0) {
        // confirm once, alone, with twice the limit
        ws[0].pid = spawn(m, 0, 99, out, hang_case, ncases, seed);
        double t0 = nowsec();
        int st = 0, fin = 0;
        while (nowsec() - t0 < 2 * hang) {
            if (waitpid(ws[0].pid, &st, WNOHANG) == ws[0].pid) {
                fin = 1;
                break;
            }
            usleep(20000);
        }
        if (!fin) {
            kill(ws[0].pid, SIGKILL);
            waitpid(ws[0].pid, &st, 0);
            g_case = hang_case;
            viol("hang", "case %ld did not finish within %.0f s, twice", hang_case, hang);
        } else {
            inconclusive = 1;
        }
    }
    char p[1024];
    snprintf(p, sizeof p, "%s.res", out);
    FILE* f = fopen(p, "w");
    if (!f) {
        return 98;
    }
    fprintf(f, "DONE %ld\nINCONCLUSIVE %d\nHARNESS %d\n", g_sh->done, inconclusive, harness_err);
    int nv = g_sh->nviol < 128 ? g_sh->nviol : 128;
    for (int i = 0; i < nv; i++) {
        for (char* c = g_sh->v[i].msg; *c; c++) {
            if (*c == '\n') {
                *c = ' ';
            }
        }
        for (char* c = g_sh->v[i].key; *c; c++) {
            if (*c == ' ') {
                *c = '_';
            }
        }
        fprintf(f, "V %ld %s %s\n", g_sh->v[i].caseno, g_sh->v[i].key, g_sh->v[i].msg);
    }
    fclose(f);
    return 0;
}
