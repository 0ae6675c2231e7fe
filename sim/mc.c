/* The search: stateless depth-first exploration of all choices, shared among
 * forked workers, with a violation recorded as the list of choices made. */
#define _GNU_SOURCE
#include "eng.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/syscall.h>

/* the real functions, not those of the simulated world */
int __real_usleep(useconds_t); int __real_clock_gettime(clockid_t, struct timespec *); void __real_exit(int) __attribute__((noreturn));
#define usleep __real_usleep
#define clock_gettime __real_clock_gettime
#define exit __real_exit

glob_t *G;
wrk_t *W;
const char *sim_property = "?";
bool sim_thorough, sim_verbose;
static bool replaying;
static int jobs = 8;
static double time_limit = 600;
static const char *out_path, *replay_path, *known_path, *only, *replay_dir = "replay";
#define NSCEN 20000
static struct scen { const char *name; scenario_fn fn; long arg; sim_cfg_t cfg; } *scen; /* not in .bss: that is copied for each execution */
static int nscen, cur_scen;
static char (*knowns)[512];
static int nknowns;

static double now(void) {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static double t_end;

void *host_alloc(size_t n) {
    void *p = mmap(NULL, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return p;
}

void sim_scenario(const char *name, scenario_fn fn, long arg) {
    if (nscen == NSCEN) { fprintf(stderr, "too many scenarios\n"); _exit(2); }
    scen[nscen].name = strcpy(host_alloc(strlen(name) + 1), name);
    scen[nscen].fn = fn;
    scen[nscen].arg = arg;
    scen[nscen].cfg = sim_cfg;
    nscen++;
}

/* ------------------------------------------------------------------ locks */
static void lk(void) { while (__sync_lock_test_and_set(&G->lock, 1)) syscall(SYS_sched_yield); }
static void ulk(void) { __sync_lock_release(&G->lock); }

/* --------------------------------------------------------------- choices */
int eng_choose(int n, const char *label, int kind) {
    if (n <= 1) return 0;
    if (W->depth >= MAXD) mc_fail("engine:depth", "more than %d choices in one execution", MAXD);
    int d = W->depth++;
    pent_t *e = &W->it.p[d];
    if (d < W->plen) {
        if (e->n != n) {
            fprintf(stderr, "ENGINE ERROR: not deterministic: choice %d (%s) has %d alternatives, had %d\n", d, label, n, e->n);
            snprintf(W->msg, sizeof W->msg, "engine: not deterministic at choice %d (%s): %d / %d alternatives", d, label, n, e->n);
            snprintf(W->sig, sizeof W->sig, "engine:nondeterminism");
            _exit(2);
        }
    } else {
        if (replaying) return 0;
        e->pick = 0; e->n = n; e->lim = n; e->kind = kind;
        W->plen = d + 1;
        W->nodes++;
    }
    if (sim_verbose && label) sim_trace("choice %d: %s -> %d of %d", d, label, e->pick, n);
    return e->pick;
}

int mc_choose(int n, const char *label) { return eng_choose(n, label, 0); }
void mc_count(uint64_t n) { W->count += n; }

uint64_t mc_hash(uint64_t h, const void *p, size_t n) {
    const uint8_t *b = p;
    h ^= 0xcbf29ce484222325ull;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; h ^= h >> 29; }
    return h;
}

void mc_outcome(uint64_t h) {
    h *= 0x9e3779b97f4a7c15ull; h ^= h >> 31;
    if (h == 0) h = 1;
    for (int i = 0; i < 64; i++) {
        volatile uint64_t *s = &G->out[(h + i) & (NOUT - 1)];
        if (*s == h) return;
        if (*s == 0 && __sync_bool_compare_and_swap(s, 0, h)) { __sync_fetch_and_add(&G->distinct, 1); return; }
        if (*s == h) return;
    }
}

bool mc_want_sample(void) { return G->nsamples < 12 && (W->execs & 7) == 0; }

void mc_sample(const char *fmt, ...) {
    if (G->nsamples >= 12) return;
    char b[600];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    lk();
    if (G->nsamples < 12) {
        bool dup = false;
        for (int i = 0; i < G->nsamples; i++) dup |= !strcmp(G->samples[i], b);
        if (!dup) { memcpy(G->samples[G->nsamples], b, sizeof b); G->nsamples++; }
    }
    ulk();
}

static int known_index(const char *sig) {
    for (int i = 0; i < nknowns; i++) if (!strcmp(knowns[i], sig)) return i;
    return -1;
}
static void known_hit(const char *sig) {
    lk();
    int i;
    for (i = 0; i < G->nknown; i++) if (!strcmp(G->known[i].sig, sig)) break;
    if (i == G->nknown && i < 64) { snprintf(G->known[i].sig, 512, "%s", sig); G->nknown++; }
    if (i < 64) G->known[i].hits++;
    ulk();
}

void mc_fail(const char *sig, const char *fmt, ...) {
    char b[sizeof W->msg];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (!replaying && known_index(sig) >= 0) {
        known_hit(sig);
        eng_execution_over(2);
    }
    snprintf(W->sig, sizeof W->sig, "%s", sig);
    memcpy(W->msg, b, sizeof b);
    W->failed = 1;
    _exit(3);
}

void mc_prune(void) { eng_execution_over(1); }

static int over_how;
void eng_execution_over(int how) { over_how = how; sim_engine_leave(); }

/* ---------------------------------------------------------------- worker */
static bool backtrack(void) {
    while (W->plen > W->it.base) {
        pent_t *e = &W->it.p[W->plen - 1];
        if (e->pick + 1 < e->lim) { e->pick++; return true; }
        W->plen--;
        if (W->plen == W->it.base) break;
    }
    return false;
}

/* gives the remaining alternatives at the shallowest level to another worker */
static void donate(void) {
    int d;
    for (d = W->it.base; d < W->plen; d++) if (W->it.p[d].pick + 1 < W->it.p[d].lim) break;
    if (d >= W->plen) return;
    lk();
    int next = (G->qtail + 1) % NSLOT;
    if (next != G->qhead) {
        item_t *q = &G->q[G->qtail];
        memcpy(q->p, W->it.p, (d + 1) * sizeof(pent_t));
        q->p[d].pick++;
        q->base = d; q->len = d + 1;
        /* the levels above stay with this worker */
        G->qtail = next;
        W->it.p[d].lim = W->it.p[d].pick + 1;
    }
    ulk();
}

static bool get_item(void) {
    bool counted = false;
    for (;;) {
        lk();
        if (G->qhead != G->qtail && !G->stop) {
            item_t *q = &G->q[G->qhead];
            memcpy(W->it.p, q->p, q->len * sizeof(pent_t));
            W->it.base = q->base; W->it.len = q->len;
            W->plen = q->len;
            G->qhead = (G->qhead + 1) % NSLOT;
            if (counted) G->waiting--;
            ulk();
            return true;
        }
        if (!counted) { G->waiting++; counted = true; }
        bool over = G->waiting == G->nworkers || G->stop;
        ulk();
        if (over) return false;
        usleep(200);
    }
}

void eng_run_scenario(void) {
    bool first = true;
    while (get_item()) {
        bool more = true;
        while (more) {
            if (G->stop) return;
            if (now() > t_end) { G->timed_out = 1; G->stop = 1; return; }
            W->depth = 0;
            if (!first) sim_restore();
            first = false;
            int known = W->plen;
            over_how = 0;
            W->in_exec = 1;
            sim_engine_enter();
            W->in_exec = 0;
            W->beat++;
            if (over_how == 0) W->execs++;
            else if (over_how == 1) W->pruned++;
            else W->execs++;
            W->edges += W->depth - (known > 0 ? known - 1 : 0);
            if (W->depth < W->plen) {
                fprintf(stderr, "ENGINE ERROR: execution ended after %d choices, %d expected\n", W->depth, W->plen);
                snprintf(W->msg, sizeof W->msg, "engine: execution ended after %d choices, %d expected", W->depth, W->plen);
                snprintf(W->sig, sizeof W->sig, "engine:nondeterminism");
                _exit(2);
            }
            if ((uint64_t)W->depth > G->max_depth) G->max_depth = W->depth;
            if (G->waiting && G->qhead == G->qtail) donate();
            more = backtrack();
        }
    }
}

/* ---------------------------------------------------------------- parent */
static void json_str(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static uint64_t T_execs, T_nodes, T_edges, T_count, T_pruned, T_points;
static bool T_exhaustive = true;
static int T_scen;


static void report_violation(int w) {
    char path[1024];
    static int nrep;
    mkdir(replay_dir, 0777);
    snprintf(path, sizeof path, "%s/%s-%d.json", replay_dir, sim_property, nrep++);
    FILE *f = fopen(path, "w");
    if (f) {
        fprintf(f, "{\"property\": \"%s\", \"tier\": \"%s\", \"scenario\": ", sim_property, sim_thorough ? "thorough" : "quick");
        json_str(f, scen[cur_scen].name);
        fprintf(f, ", \"signature\": ");
        json_str(f, G->w[w].sig);
        fprintf(f, ", \"message\": ");
        json_str(f, G->w[w].msg);
        fprintf(f, ", \"races\": [");
        for (int i = 0; i < G->race_n0; i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)G->race_pc[i]);
        fprintf(f, "], \"picks\": [");
        for (int i = 0; i < G->w[w].depth && i < MAXD; i++)
            fprintf(f, "%s[%d,%d]", i ? "," : "", G->w[w].it.p[i].pick, G->w[w].it.p[i].n);
        fprintf(f, "]}\n");
        fclose(f);
    }
    printf("%s [%s]\n%s\n", G->w[w].sig, scen[cur_scen].name, G->w[w].msg);
    printf("VIOLATION property=%s replay=%s\n", sim_property, path);
    fflush(stdout);
}

static void write_stats(double wall, int violations) {
    if (!out_path) return;
    FILE *f = fopen(out_path, "w");
    if (!f) return;
    fprintf(f, "{\"states\": %llu, \"transitions\": %llu, \"executions\": %llu, \"pruned\": %llu, \"evaluations\": %llu, \"distinct\": %llu, \"points\": %llu, \"max_depth\": %llu, \"scenarios\": %d, \"exhaustive\": %s, \"wall_s\": %.3f, \"violations\": %d, \"races\": %d,\n \"rule\": ",
        (unsigned long long)T_nodes, (unsigned long long)T_edges, (unsigned long long)T_execs, (unsigned long long)T_pruned,
        (unsigned long long)T_count, (unsigned long long)G->distinct, (unsigned long long)T_points, (unsigned long long)G->max_depth, T_scen, T_exhaustive ? "true" : "false", wall, violations, G->nrace);
    json_str(f, harness_rule ? harness_rule : "");
    fprintf(f, ",\n \"samples\": [");
    for (int i = 0; i < G->nsamples; i++) { if (i) fputs(",\n  ", f); json_str(f, G->samples[i]); }
    fprintf(f, "],\n \"known\": [");
    for (int i = 0; i < G->nknown; i++) { if (i) fputs(", ", f); json_str(f, G->known[i].sig); }
    fprintf(f, "]}\n");
    fclose(f);
}

static int run_one(int s) {
    int rc = 0;
    cur_scen = s;
    int nw = replaying ? 1 : jobs;
    if (nw > MAXW) nw = MAXW;
again:
    G->stop = 0; G->waiting = 0; G->nworkers = nw; G->qhead = 0; G->qtail = 1; G->lock = 0;
    G->race_new = 0;
    G->race_n0 = G->nrace;
    G->q[0].base = 0; G->q[0].len = 0;
    for (int i = 0; i < nw; i++) {
        wrk_t *w = &G->w[i];
        w->execs = w->nodes = w->edges = w->points = w->count = w->cut = w->pruned = 0;
        w->failed = 0; w->sig[0] = w->msg[0] = 0; w->depth = w->plen = 0; w->in_exec = 0; w->it.base = 0;
        fflush(stdout); fflush(stderr);
        int pid = fork();
        if (pid < 0) { perror("fork"); exit(2); }
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            W = w;
            if (replaying) {
                /* the path to replay was put into the queue by main */
            }
            sim_cfg = scen[s].cfg;
            if (G->nworkers > 1 && i > 0) usleep(300);
            sim_boot_world(scen[s].fn, scen[s].arg);
            eng_run_scenario();
            _exit(0);
        }
        w->pid = pid;
    }
    int left = nw;
    uint64_t beat[MAXW] = {0};
    double since[MAXW];
    for (int i = 0; i < nw; i++) since[i] = now();
    bool bad = false;
    while (left > 0) {
        int st, pid = waitpid(-1, &st, WNOHANG);
        if (pid > 0) {
            int i;
            for (i = 0; i < nw; i++) if (G->w[i].pid == pid) break;
            if (i == nw) continue;
            G->w[i].pid = 0;
            left--;
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !bad) {
                wrk_t *w = &G->w[i];
                bad = true;
                G->stop = 1;
                /* whoever holds the lock may be gone */
                G->lock = 0;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 2 ) {
                    fprintf(stderr, "ENGINE ERROR in %s: %s\n", scen[s].name, w->msg);
                    rc = 2;
                } else {
                    if (!w->failed && !w->msg[0]) {
                        snprintf(w->sig, sizeof w->sig, "crash");
                        snprintf(w->msg, sizeof w->msg, "the process ended with %s %d", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
                    }
                    if (!replaying && known_index(w->sig) >= 0) {
                        known_hit(w->sig);
                        T_exhaustive = false;
                    } else {
                        if (replaying) printf("%s\n%s\nVIOLATION property=%s (replayed)\n", w->sig, w->msg, sim_property);
                        else report_violation(i);
                        rc = 1;
                    }
                }
            }
            continue;
        }
        if (pid < 0 && errno == ECHILD) break;
        usleep(left ? 500 : 0);
        for (int i = 0; i < nw; i++) {
            wrk_t *w = &G->w[i];
            if (!w->pid) continue;
            if (w->beat != beat[i] || !w->in_exec) { beat[i] = w->beat; since[i] = now(); }
            else if (now() - since[i] > 60 && !w->msg[0]) {
                snprintf(w->sig, sizeof w->sig, "hang");
                snprintf(w->msg, sizeof w->msg, "an execution does not end (endless loop)");
                kill(w->pid, SIGKILL);
            } else if (bad && now() - since[i] > 5) kill(w->pid, SIGKILL);
        }
    }
    /* with new scheduling points the search starts again */
    if (!rc && !replaying && G->race_new && !G->timed_out) goto again;
    for (int i = 0; i < nw; i++) {
        wrk_t *w = &G->w[i];
        T_execs += w->execs; T_nodes += w->nodes; T_edges += w->edges; T_count += w->count; T_pruned += w->pruned; T_points += w->points;
    }
    T_nodes++;
    if (G->timed_out) T_exhaustive = false;
    return rc;
}

static int load_replay(const char *p, char *scn, size_t n) {
    FILE *f = fopen(p, "r");
    if (!f) { perror(p); exit(2); }
    char *buf = host_alloc(1 << 22);
    size_t len = fread(buf, 1, (1 << 22) - 1, f);
    buf[len] = 0;
    fclose(f);
    char *s = strstr(buf, "\"scenario\": \"");
    if (!s) exit(2);
    s += 13;
    size_t i = 0;
    while (*s && *s != '"' && i + 1 < n) { if (*s == '\\') s++; scn[i++] = *s++; }
    scn[i] = 0;
    sim_thorough = strstr(buf, "\"tier\": \"thorough\"") != NULL;
    if ((s = strstr(buf, "\"races\": ["))) {
        s += 10;
        while (*s && *s != ']') { G->race_pc[G->nrace++] = strtoull(s, &s, 10); if (*s == ',') s++; }
    }
    s = strstr(buf, "\"picks\": [");
    if (!s) exit(2);
    s += 10;
    int d = 0;
    while (*s == '[' || *s == ',') {
        if (*s == ',') { s++; continue; }
        s++;
        G->q[0].p[d].pick = strtol(s, &s, 10); s++;
        G->q[0].p[d].n = strtol(s, &s, 10); s++;
        G->q[0].p[d].lim = G->q[0].p[d].pick + 1;
        d++;
    }
    return d;
}

int main(int argc, char **argv) {
    bool list = false;
    scen = host_alloc(NSCEN * sizeof *scen);
    knowns = host_alloc(64 * 512);
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    for (int i = 1; i < argc; i++) {
        const char *a = argv[i], *v = i + 1 < argc ? argv[i + 1] : "";
        if (!strcmp(a, "--property")) { sim_property = v; i++; }
        else if (!strcmp(a, "--tier")) { sim_thorough = !strcmp(v, "thorough"); i++; }
        else if (!strcmp(a, "--out")) { out_path = v; i++; }
        else if (!strcmp(a, "--jobs")) { jobs = atoi(v); i++; }
        else if (!strcmp(a, "--time")) { time_limit = atof(v); i++; }
        else if (!strcmp(a, "--replay")) { replay_path = v; i++; }
        else if (!strcmp(a, "--replay-dir")) { replay_dir = v; i++; }
        else if (!strcmp(a, "--known")) { known_path = v; i++; }
        else if (!strcmp(a, "--scenario")) { only = v; i++; }
        else if (!strcmp(a, "--verbose")) sim_verbose = true;
        else if (!strcmp(a, "--list")) list = true;
        else { fprintf(stderr, "unknown option %s\n", a); return 2; }
    }
    G = mmap(NULL, sizeof *G, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (G == MAP_FAILED) { perror("mmap"); return 2; }
    if (known_path) {
        FILE *f = fopen(known_path, "r");
        char l[2048];
        while (f && fgets(l, sizeof l, f)) {
            char pr[64], sg[512];
            if (sscanf(l, "finding: property=%63s sig=%511s", pr, sg) == 2 && !strcmp(pr, sim_property) && nknowns < 64)
                strcpy(knowns[nknowns++], sg);
        }
        if (f) fclose(f);
    }
    char scn[512];
    int rlen = 0;
    if (replay_path) {
        replaying = true; sim_verbose = true;
        rlen = load_replay(replay_path, scn, sizeof scn);
        only = scn;
    }
    sim_cfg.max_steps = 2000000;
    sim_cfg.max_sleeps = 3000;
    harness_init();
    if (list) { for (int i = 0; i < nscen; i++) printf("%s\n", scen[i].name); return 0; }
    double t0 = now();
    t_end = t0 + time_limit;
    be_init();
    int rc = 0;
    for (int s = 0; s < nscen && rc == 0; s++) {
        if (only && (replaying ? strcmp(only, scen[s].name) != 0 : strstr(scen[s].name, only) == NULL)) continue;
        if (now() > t_end) { T_exhaustive = false; break; }
        double ts = now();
        uint64_t e0 = T_execs;
        if (replaying) {
            /* item 0 is the path */
            G->stop = 0; G->waiting = 0; G->nworkers = 1; G->lock = 0;
            cur_scen = s;
            static wrk_t rw; (void)rw;
            int pid = fork();
            if (pid == 0) {
                W = &G->w[0];
                memcpy(W->it.p, G->q[0].p, rlen * sizeof(pent_t));
                W->plen = rlen; W->it.base = rlen;
                sim_cfg = scen[s].cfg;
                sim_boot_world(scen[s].fn, scen[s].arg);
                over_how = 0;
                W->depth = 0;
                sim_engine_enter();
                _exit(0);
            }
            int st;
            waitpid(pid, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { printf("the replayed execution raised no violation\n"); rc = 0; }
            else {
                if (!G->w[0].msg[0]) snprintf(G->w[0].msg, sizeof G->w[0].msg, "the process ended with status %x", st);
                printf("%s\n%s\nVIOLATION property=%s replay=%s\n", G->w[0].sig, G->w[0].msg, sim_property, replay_path);
                rc = 1;
            }
            break;
        }
        T_scen++;
        rc = run_one(s);
        if (getenv("SIM_TIMES")) fprintf(stderr, "%-50s %8llu executions %6.2fs\n", scen[s].name, (unsigned long long)(T_execs - e0), now() - ts);
    }
    if (!replaying) {
        for (int i = 0; i < G->nknown; i++) printf("KNOWN-FINDING: property=%s %s (%llu executions)\n", sim_property, G->known[i].sig, (unsigned long long)G->known[i].hits);
        write_stats(now() - t0, rc == 1);
        printf("%s: %d scenarios, %llu executions, %llu states, %llu transitions, %llu cases, %llu distinct outcomes%s, %.1fs\n", sim_property, T_scen,
            (unsigned long long)T_execs, (unsigned long long)T_nodes, (unsigned long long)T_edges, (unsigned long long)T_count, (unsigned long long)G->distinct,
            T_exhaustive ? "" : " (NOT exhaustive: time limit)", now() - t0);
    }
    fflush(stdout);
    return rc;
}
