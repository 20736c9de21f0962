/*
 * A small OpenMP runtime made of plain pthreads, so that ThreadSanitizer sees every synchronisation the compiled code relies on (libgomp
 * itself is not instrumented), with perturbed schedules; and guards around the FFTW planner, which is not thread safe.
 * Preloaded by the 'tsan' workers only.
 */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <sched.h>
#include <stdbool.h>
#include <dlfcn.h>
#include <time.h>
#include <stdint.h>

#define MAXWS 64
#define MAXT 64

struct ws { bool init; long next, end, incr, chunk; };
struct team {
    int n;
    void (*fn)(void *);
    void *data;
    pthread_barrier_t bar;
    pthread_mutex_t mu;
    struct ws ws[MAXWS];
    int single, w0;
    uint64_t hash;
};

static __thread struct team *tm;
static __thread int tid;
static __thread int wsi;
static __thread int singles;
static __thread unsigned int rs;
static int nthreads_set;

/* statistics, read by the harness */
static pthread_mutex_t stat_mu = PTHREAD_MUTEX_INITIALIZER;
long minigomp_regions, minigomp_chunks, minigomp_multi, minigomp_fftw_plans, minigomp_fftw_overlaps;
uint64_t minigomp_hashes[65536];
long minigomp_nhash;

static int default_threads(void) {
    if (nthreads_set > 0) return nthreads_set;
    const char *s = getenv("OMP_NUM_THREADS");
    int n = s ? atoi(s) : 4;
    return n < 1 ? 1 : n > MAXT ? MAXT : n;
}

static void perturb(void) {
    if (!rs) rs = (unsigned int)time(NULL) ^ (unsigned int)(uintptr_t)&rs ^ 0x9e3779b9u;
    unsigned int r = (rs = rs * 1664525u + 1013904223u) >> 16;
    if (r % 7 == 0) sched_yield();
    else if (r % 23 == 1) usleep(r % 300);
}

struct arg { struct team *t; int id; };

static void *run(void *p) {
    struct arg *a = p;
    tm = a->t; tid = a->id; wsi = a->t->w0; singles = 0;
    perturb();
    tm->fn(tm->data);
    return NULL;
}

static void go(struct team *t) {
    pthread_t th[MAXT];
    struct arg a[MAXT];
    int made = 0;
    struct team *otm = tm; int otid = tid, owsi = wsi, osi = singles;
    pthread_barrier_init(&t->bar, NULL, t->n);
    for (int i = 1; i < t->n; i++) {
        a[i].t = t; a[i].id = i;
        if (pthread_create(&th[i], NULL, run, &a[i])) abort();
        made++;
    }
    a[0].t = t; a[0].id = 0;
    run(&a[0]);
    tm = otm; tid = otid; wsi = owsi; singles = osi;
    for (int i = 1; i <= made; i++) pthread_join(th[i], NULL);
    pthread_barrier_destroy(&t->bar);
    pthread_mutex_lock(&stat_mu);
    minigomp_regions++;
    if (t->n > 1) minigomp_multi++;
    long k, n = minigomp_nhash;
    for (k = 0; k < n; k++) if (minigomp_hashes[k] == t->hash) break;
    if (k == n && n < 65536) minigomp_hashes[minigomp_nhash++] = t->hash;
    pthread_mutex_unlock(&stat_mu);
}

static struct team *mk(void (*fn)(void *), void *data, unsigned n) {
    struct team *t = calloc(1, sizeof *t);
    t->n = n ? (int)n : default_threads();
    if (t->n > MAXT) t->n = MAXT;
    if (tm) t->n = 1;                               /* nested regions are serial */
    t->fn = fn; t->data = data;
    t->hash = 1469598103934665603ull;
    pthread_mutex_init(&t->mu, NULL);
    return t;
}

static void done(struct team *t) { pthread_mutex_destroy(&t->mu); free(t); }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
    (void)flags;
    struct team *t = mk(fn, data, n);
    go(t);
    done(t);
}

static bool nextchunk(long *is, long *ie) {
    struct team *t = tm;
    struct ws *w = &t->ws[(wsi - 1) % MAXWS];
    perturb();
    pthread_mutex_lock(&t->mu);
    bool up = w->incr > 0;
    bool ok = up ? w->next < w->end : w->next > w->end;
    if (ok) {
        *is = w->next;
        long e = w->next + w->chunk * w->incr;
        if (up ? e > w->end : e < w->end) e = w->end;
        *ie = e;
        w->next = e;
        t->hash = (t->hash ^ (uint64_t)(tid + 1)) * 1099511628211ull;
    }
    pthread_mutex_unlock(&t->mu);
    if (ok) __atomic_add_fetch(&minigomp_chunks, 1, __ATOMIC_RELAXED);
    return ok;
}

static bool startloop(long s, long e, long incr, long chunk, long *is, long *ie) {
    if (!tm) { if (s == e) return false; *is = s; *ie = e; return true; }
    struct ws *w = &tm->ws[wsi++ % MAXWS];
    pthread_mutex_lock(&tm->mu);
    if (!w->init) {
        w->init = true; w->next = s; w->end = e; w->incr = incr;
        w->chunk = chunk > 0 ? chunk : 1;
    }
    pthread_mutex_unlock(&tm->mu);
    return nextchunk(is, ie);
}

#define LOOP(NAME) \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *a, long *b) { return startloop(s, e, i, c, a, b); } \
    bool GOMP_loop_##NAME##_next(long *a, long *b) { return tm ? nextchunk(a, b) : false; }
LOOP(dynamic) LOOP(nonmonotonic_dynamic) LOOP(guided) LOOP(nonmonotonic_guided) LOOP(static)
#define LOOPR(NAME) \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long *a, long *b) { return startloop(s, e, i, 1, a, b); } \
    bool GOMP_loop_##NAME##_next(long *a, long *b) { return tm ? nextchunk(a, b) : false; }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)

static void par_loop(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c) {
    struct team *t = mk(fn, d, n);
    t->w0 = 1;
    t->ws[0] = (struct ws){ true, s, e, i, c > 0 ? c : 1 };
    go(t);
    done(t);
}
/* combined constructs: the outlined function calls _next only, so its first work share is number 0 */
#define PLOOP(NAME) \
    void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { (void)f; par_loop(fn, d, n, s, e, i, c); }
PLOOP(dynamic) PLOOP(nonmonotonic_dynamic) PLOOP(guided) PLOOP(nonmonotonic_guided) PLOOP(static)
#define PLOOPR(NAME) \
    void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { (void)f; par_loop(fn, d, n, s, e, i, 1); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)

void GOMP_barrier(void) { if (tm) { perturb(); pthread_barrier_wait(&tm->bar); } }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { }
bool GOMP_single_start(void) {
    if (!tm) return true;
    bool r = false;
    int k = singles++;
    pthread_mutex_lock(&tm->mu);
    if (tm->single == k) { tm->single++; r = true; }
    pthread_mutex_unlock(&tm->mu);
    return r;
}

static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER, named = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_start(void) { perturb(); pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); perturb(); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }
void GOMP_critical_name_start(void **p) {
    pthread_mutex_lock(&named);
    if (!*p) { pthread_mutex_t *m = malloc(sizeof *m); pthread_mutex_init(m, NULL); *p = m; }
    pthread_mutex_t *m = *p;
    pthread_mutex_unlock(&named);
    perturb();
    pthread_mutex_lock(m);
}
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock(*p); }

int omp_get_thread_num(void) { return tm ? tid : 0; }
int omp_get_num_threads(void) { return tm ? tm->n : 1; }
int omp_get_max_threads(void) { return default_threads(); }
int omp_get_num_procs(void) { return (int)sysconf(_SC_NPROCESSORS_ONLN); }
int omp_in_parallel(void) { return tm != NULL && tm->n > 1; }
void omp_set_num_threads(int n) { nthreads_set = n; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

void minigomp_seed(unsigned s) { rs = s | 1; }
void minigomp_threads(int n) { nthreads_set = n; }

/*
 * FFTW: the planner, plan destruction and wisdom may only be used by one thread at a time.
 */
static int inside;
static void enter(void) {
    int n = __atomic_add_fetch(&inside, 1, __ATOMIC_SEQ_CST);
    __atomic_add_fetch(&minigomp_fftw_plans, 1, __ATOMIC_RELAXED);
    if (n > 1) __atomic_add_fetch(&minigomp_fftw_overlaps, 1, __ATOMIC_SEQ_CST);
    if (!rs) perturb();
    rs = rs * 1664525u + 1013904223u;
    if ((rs >> 16) % 3 == 0) usleep((rs >> 16) % 400);
}
static void leave(void) { __atomic_sub_fetch(&inside, 1, __ATOMIC_SEQ_CST); }

/* one real call at a time, so that an overlap is reported and does not corrupt the run */
static pthread_mutex_t real = PTHREAD_MUTEX_INITIALIZER;
#define NEXT(f) ({ static void *p_; if (!p_) p_ = dlsym(RTLD_NEXT, f); if (!p_) { void *h_ = dlopen("libfftw3f.so.3", RTLD_LAZY); p_ = h_ ? dlsym(h_, f) : NULL; } if (!p_) abort(); p_; })
typedef void *P;
#define W(RET, NAME, PARAMS, ARGS) \
    RET NAME PARAMS { RET (*f_) PARAMS = NEXT(#NAME); enter(); pthread_mutex_lock(&real); RET r_ = f_ ARGS; pthread_mutex_unlock(&real); leave(); return r_; }
W(P, fftwf_plan_many_dft_r2c, (int r, const int *n, int h, P i, const int *ie, int is, int id, P o, const int *oe, int os, int od, unsigned f), (r, n, h, i, ie, is, id, o, oe, os, od, f))
W(P, fftwf_plan_many_dft, (int r, const int *n, int h, P i, const int *ie, int is, int id, P o, const int *oe, int os, int od, int s, unsigned f), (r, n, h, i, ie, is, id, o, oe, os, od, s, f))
W(P, fftwf_plan_dft_2d, (int a, int b, P i, P o, int s, unsigned f), (a, b, i, o, s, f))
W(P, fftwf_plan_dft_1d, (int a, P i, P o, int s, unsigned f), (a, i, o, s, f))
W(P, fftwf_plan_dft_r2c_1d, (int a, P i, P o, unsigned f), (a, i, o, f))
W(P, fftwf_plan_dft_c2r_1d, (int a, P i, P o, unsigned f), (a, i, o, f))
W(P, fftwf_plan_dft_r2c_2d, (int a, int b, P i, P o, unsigned f), (a, b, i, o, f))
W(P, fftwf_plan_r2r_1d, (int a, P i, P o, int k, unsigned f), (a, i, o, k, f))
W(int, fftwf_import_wisdom_from_file, (P f), (f))
W(int, fftwf_import_system_wisdom, (void), ())
void fftwf_destroy_plan(P p) { void (*f_)(P) = NEXT("fftwf_destroy_plan"); enter(); pthread_mutex_lock(&real); f_(p); pthread_mutex_unlock(&real); leave(); }
void fftwf_export_wisdom_to_file(P p) { void (*f_)(P) = NEXT("fftwf_export_wisdom_to_file"); enter(); pthread_mutex_lock(&real); f_(p); pthread_mutex_unlock(&real); leave(); }
