/*
 * A small OpenMP runtime (the parts GCC calls, and the parts SLAT calls), used
 * instead of libgomp for two purposes:
 *
 *  - by default, every lock, team and critical section is a plain pthread
 *    object, so that ThreadSanitizer (which can't see inside libgomp) knows
 *    what is ordered with what;
 *
 *  - with SCHED defined, threads run one at a time, and a seeded scheduler
 *    decides, at every synchronising operation (and wherever mg_yield() is
 *    called) which runs next. It notices when none can (deadlock), and records
 *    a hash of the choices made, so that distinct interleavings can be counted.
 */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <sched.h>

typedef struct loopshare { long next, end, incr, chunk; int users; int id; struct loopshare *link; } loopshare;

typedef struct team {
    int n, level, active_level;
    struct thr *parent;
    pthread_mutex_t m; pthread_cond_t c;
    int arrived; unsigned gen;
    int spin;
    loopshare *shares;
    unsigned single_seen;
    void *copy;
} team;

typedef struct thr {
    team *t;
    int num;
    int ws;                 /* work shares this thread has met */
    loopshare *cur;
    unsigned singles;
    int sid;                /* scheduler id */
} thr;

static team root_team = { 1, 0, 0, NULL };
static __thread thr self_storage;
static __thread thr *self_;
static int nthreads_var = 4, max_active = 1;
static int seeded_delay = 0;

static thr *self(void)
{
    if (!self_) { self_storage.t = &root_team; self_storage.num = 0; self_ = &self_storage; self_storage.sid = -1; }
    return self_;
}

/* ------------------------------------------------------------------ */
#ifdef SCHED

#define MAXT 256
enum { FREE, READY, BLOCKED, DONE };
static pthread_mutex_t sm = PTHREAD_MUTEX_INITIALIZER;
static struct { int state; const void *on; pthread_cond_t c; long prio; } st[MAXT];
static int nst = 0, running = -1;
static uint64_t rng = 88172645463325252ull, hash_ = 1469598103934665603ull;
static long steps = 0, switches = 0, step_limit = 20000000;
static int policy = 0;            /* 0: switch with probability 1/k at each point; 1: priorities (PCT) */
static int change_every = 3;
static long pct_next = 0, low = -1;

static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

void mg_seed(unsigned long s, int pol, int every)
{
    rng = s * 0x9E3779B97F4A7C15ull + 0x1234567; if (!rng) rng = 1;
    for (int i=0; i < 8; i++) rnd();
    hash_ = 1469598103934665603ull; steps = switches = 0; policy = pol; change_every = every < 1 ? 1 : every;
    pct_next = 1 + rnd() % (20 * change_every); low = -1;
}
unsigned long mg_hash(void) { return hash_; }
long mg_switches(void) { return switches; }
long mg_steps(void) { return steps; }

static void stuck(const char *why)
{
    fflush(stdout);
    fprintf(stderr, "SCHED: %s after %ld steps\n", why, steps);
    for (int i=0; i < nst; i++) if (st[i].state == BLOCKED) fprintf(stderr, "SCHED: thread %d waits for %p\n", i, st[i].on);
    fflush(stderr);
    _exit(96);
}

static int join_slot(void)      /* sm held */
{
    for (int i=0; i < nst; i++) if (st[i].state == FREE) return i;
    if (nst == MAXT) stuck("too many threads");
    pthread_cond_init(&st[nst].c, NULL);
    return nst++;
}

/* choose who's next; sm held, the caller's state has been set */
static int choose(int me)
{
    int ready[MAXT], n = 0;
    for (int i=0; i < nst; i++) if (st[i].state == READY) ready[n++] = i;
    if (n == 0) return -1;
    if (++steps > step_limit) stuck("no progress (step limit)");
    bool me_ready = me >= 0 && st[me].state == READY;
    if (policy == 0) {
        if (me_ready && rnd() % change_every != 0) return me;
        return ready[rnd() % n];
    }
    if (--pct_next <= 0 && me >= 0) { st[me].prio = low--; pct_next = 1 + rnd() % (20 * change_every); }
    int best = ready[0];
    for (int i=1; i < n; i++) if (st[ready[i]].prio > st[best].prio) best = ready[i];
    return best;
}

static void dispatch(int me, bool wait)     /* sm held */
{
    int next = choose(me);
    if (next < 0) {
        if (!wait) { running = -1; return; }
        stuck("deadlock");
    }
    if (next != me) { switches++; hash_ = (hash_ ^ (uint64_t)(next + 1)) * 1099511628211ull; hash_ ^= steps & 0xffff; }
    running = next;
    if (next != me) {
        pthread_cond_signal(&st[next].c);
        if (wait) while (running != me) pthread_cond_wait(&st[me].c, &sm);
    }
}

static void adopt(void)
{
    thr *s = self();
    if (s->sid < 0) {
        pthread_mutex_lock(&sm);
        s->sid = join_slot(); st[s->sid].state = READY; st[s->sid].prio = rnd() % 1000000;
        if (running < 0) running = s->sid;
        else while (running != s->sid) pthread_cond_wait(&st[s->sid].c, &sm);
        pthread_mutex_unlock(&sm);
    }
}

void mg_yield(void)
{
    adopt();
    pthread_mutex_lock(&sm);
    dispatch(self()->sid, true);
    pthread_mutex_unlock(&sm);
}

/* wait until someone wakes what we're waiting on */
static void block_on(const void *what)
{
    int me = self()->sid;
    pthread_mutex_lock(&sm);
    st[me].state = BLOCKED; st[me].on = what;
    dispatch(me, true);
    pthread_mutex_unlock(&sm);
}
static void wake_all(const void *what)
{
    pthread_mutex_lock(&sm);
    for (int i=0; i < nst; i++) if (st[i].state == BLOCKED && st[i].on == what) st[i].state = READY;
    pthread_mutex_unlock(&sm);
}

typedef struct { int held; } mg_mutex;
static void mm_lock(mg_mutex *m) { adopt(); mg_yield(); while (m->held) block_on(m); m->held = 1; }
static int mm_try(mg_mutex *m) { adopt(); mg_yield(); if (m->held) return 0; m->held = 1; return 1; }
static void mm_unlock(mg_mutex *m) { m->held = 0; wake_all(m); mg_yield(); }

#else

void mg_seed(unsigned long s, int pol, int every) { seeded_delay = pol; (void)s; (void)every; }
unsigned long mg_hash(void) { return 0; }
long mg_switches(void) { return 0; }
long mg_steps(void) { return 0; }
static __thread uint64_t drng;
void mg_yield(void)
{
    if (!seeded_delay) return;
    if (!drng) drng = (uint64_t)(uintptr_t)&drng | 1;
    drng ^= drng << 13; drng ^= drng >> 7; drng ^= drng << 17;
    switch (drng % 16) {
    case 0: usleep(drng / 16 % 50); break;
    case 1: case 2: case 3: sched_yield(); break;
    }
}
typedef struct { pthread_mutex_t m; } mg_mutex;
static void mm_lock(mg_mutex *m) { mg_yield(); pthread_mutex_lock(&m->m); }
static int mm_try(mg_mutex *m) { return pthread_mutex_trylock(&m->m) == 0; }
static void mm_unlock(mg_mutex *m) { pthread_mutex_unlock(&m->m); mg_yield(); }

#endif
/* ------------------------------------------------------------------ */

/* Locks: an omp_lock_t is only an int, so keep an index to our own */
#define MAXLOCKS (1 << 20)
/*
 * Mutexes are never created or destroyed, but used as they are (all zero), since
 * ThreadSanitizer doesn't see what orders their creation with their first use.
 */
static mg_mutex store[MAXLOCKS];
static mg_mutex *locks[MAXLOCKS];
static int nlocks = 1, free_list[MAXLOCKS], nfree = 0;
/* not a mutex: ThreadSanitizer would take it as ordering what it doesn't */
static int table;
static void spin_lock(int *l) { while (__atomic_exchange_n(l, 1, __ATOMIC_ACQUIRE)) sched_yield(); }
static void spin_unlock(int *l) { __atomic_store_n(l, 0, __ATOMIC_RELEASE); }

static int new_lock(void)
{
    spin_lock(&table);
    int i = nfree ? free_list[--nfree] : nlocks++;
    if (i >= MAXLOCKS) { fprintf(stderr, "minigomp: too many locks\n"); _exit(95); }
    mg_mutex *m = &store[i];
    __atomic_store_n(&locks[i], m, __ATOMIC_RELEASE);
    spin_unlock(&table);
    return i;
}
static mg_mutex *find(int *l)
{
    int i = __atomic_load_n(l, __ATOMIC_ACQUIRE);
    if (i <= 0 || i >= MAXLOCKS || !locks[i]) {
        /* never initialised: libgomp takes zero for an unlocked lock */
        if (i != 0) { fprintf(stderr, "minigomp: use of a destroyed or invalid lock\n"); _exit(94); }
        int n = new_lock();
        if (!__atomic_compare_exchange_n(l, &i, n, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) return find(l);
        i = n;
    }
    return locks[i];
}
void omp_init_lock(int *l) { int n = new_lock(); __atomic_store_n(l, n, __ATOMIC_RELEASE); }
void omp_destroy_lock(int *l)
{
    int i = *l;
    if (i <= 0) return;
    mg_mutex *m = locks[i];
    if (!m) { fprintf(stderr, "minigomp: lock destroyed twice\n"); _exit(94); }
    (void)m;
    spin_lock(&table);
    locks[i] = NULL; free_list[nfree++] = i;
    spin_unlock(&table);
    *l = -1;
}
void omp_set_lock(int *l) { mm_lock(find(l)); }
void omp_unset_lock(int *l) { mm_unlock(find(l)); }
int omp_test_lock(int *l) { return mm_try(find(l)); }

/* nestable locks: { int lock; int count; void *owner } */
typedef struct { int lock; int count; void *owner; } nestlock;
void omp_init_nest_lock(nestlock *l) { omp_init_lock(&l->lock); l->count = 0; l->owner = NULL; }
void omp_destroy_nest_lock(nestlock *l) { omp_destroy_lock(&l->lock); }
void omp_set_nest_lock(nestlock *l)
{
    if (__atomic_load_n(&l->owner, __ATOMIC_ACQUIRE) != self()) { omp_set_lock(&l->lock); __atomic_store_n(&l->owner, (void *)self(), __ATOMIC_RELEASE); }
    l->count++;
}
void omp_unset_nest_lock(nestlock *l)
{
    if (--l->count == 0) { __atomic_store_n(&l->owner, NULL, __ATOMIC_RELEASE); omp_unset_lock(&l->lock); }
}

/* Critical sections */
static int critical_lock, atomic_lock;
void GOMP_critical_start(void) { omp_set_lock(&critical_lock); }
void GOMP_critical_end(void) { omp_unset_lock(&critical_lock); }
void GOMP_atomic_start(void) { omp_set_lock(&atomic_lock); }
void GOMP_atomic_end(void) { omp_unset_lock(&atomic_lock); }
static struct { void **p; int lock; } named[256];
static int *named_lock(void **p)
{
    spin_lock(&table);
    int i;
    for (i=0; i < 256 && named[i].p && named[i].p != p; i++) ;
    named[i].p = p;
    spin_unlock(&table);
    return &named[i].lock;
}
void GOMP_critical_name_start(void **p) { omp_set_lock(named_lock(p)); }
void GOMP_critical_name_end(void **p) { omp_unset_lock(named_lock(p)); }

/* Teams */
typedef struct { team *t; int num; void (*fn)(void *); void *data; int sid; } start;

static void *body(void *arg)
{
    start *s = arg;
    thr me = { s->t, s->num, 0, NULL, 0, s->sid };
    self_ = &me;
#ifdef SCHED
    pthread_mutex_lock(&sm);
    while (running != me.sid) pthread_cond_wait(&st[me.sid].c, &sm);
    pthread_mutex_unlock(&sm);
#endif
    s->fn(s->data);
#ifdef SCHED
    pthread_mutex_lock(&sm);
    st[me.sid].state = DONE;
    bool last = true;
    (void)last;
    /* wake whoever joins us */
    for (int i=0; i < nst; i++) if (st[i].state == BLOCKED && st[i].on == s->t) st[i].state = READY;
    s->t->arrived++;
    dispatch(me.sid, false);
    pthread_mutex_unlock(&sm);
#endif
    return NULL;
}

static loopshare *share(thr *s, long start_, long end, long incr, long chunk)
{
    team *t = s->t;
    int id = ++s->ws;
    spin_lock(&t->spin);
    loopshare *l;
    for (l=t->shares; l && l->id != id; l = l->link) ;
    if (!l) {
        l = calloc(1, sizeof *l);
        l->id = id; l->next = start_; l->end = end; l->incr = incr; l->chunk = chunk < 1 ? 1 : chunk;
        l->link = t->shares; t->shares = l;
    }
    spin_unlock(&t->spin);
    s->cur = l;
    return l;
}

static void run_team(void (*fn)(void *), void *data, unsigned n, void (*before)(team *, void *), void *barg)
{
    thr *s = self();
#ifdef SCHED
    adopt();
#endif
    if (n == 0) n = nthreads_var;
    if (s->t->active_level >= max_active) n = 1;
    team t;
    memset(&t, 0, sizeof t);
    t.n = n; t.level = s->t->level + 1; t.active_level = s->t->active_level + (n > 1); t.parent = s;
    pthread_mutex_init(&t.m, NULL); pthread_cond_init(&t.c, NULL);
    if (before) before(&t, barg);
    pthread_t *ids = calloc(n, sizeof *ids);
    start *starts = calloc(n, sizeof *starts);
    for (unsigned i=1; i < n; i++) {
        starts[i] = (start){ &t, (int)i, fn, data, -1 };
#ifdef SCHED
        pthread_mutex_lock(&sm);
        starts[i].sid = join_slot(); st[starts[i].sid].state = READY; st[starts[i].sid].prio = rnd() % 1000000;
        pthread_mutex_unlock(&sm);
#endif
        pthread_create(&ids[i], NULL, body, &starts[i]);
    }
    thr me = { &t, 0, 0, NULL, 0, s->sid };
    self_ = &me;
#ifdef SCHED
    mg_yield();
#endif
    fn(data);
#ifdef SCHED
    while (1) {
        pthread_mutex_lock(&sm);
        bool all = t.arrived == (int)n - 1;
        pthread_mutex_unlock(&sm);
        if (all) break;
        block_on(&t);
    }
#endif
    self_ = s;
    for (unsigned i=1; i < n; i++) {
        pthread_join(ids[i], NULL);
#ifdef SCHED
        pthread_mutex_lock(&sm);
        st[starts[i].sid].state = FREE;
        pthread_mutex_unlock(&sm);
#endif
    }
    free(ids); free(starts);
    while (t.shares) { loopshare *l = t.shares; t.shares = l->link; free(l); }
    pthread_mutex_destroy(&t.m); pthread_cond_destroy(&t.c);
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { run_team(fn, data, n, NULL, NULL); }

void GOMP_barrier(void)
{
    team *t = self()->t;
    if (t->n == 1) return;
#ifdef SCHED
    unsigned g = t->gen;
    /* threads of a team which arrive at the end are counted in 'arrived': use single_seen here */
    if (++t->single_seen == (unsigned)t->n) { t->single_seen = 0; t->gen++; wake_all(&t->gen); mg_yield(); }
    else while (t->gen == g) block_on(&t->gen);
#else
    pthread_mutex_lock(&t->m);
    unsigned g = t->gen;
    if (++t->arrived == t->n) { t->arrived = 0; t->gen++; pthread_cond_broadcast(&t->c); }
    else while (t->gen == g) pthread_cond_wait(&t->c, &t->m);
    pthread_mutex_unlock(&t->m);
#endif
}

/* Loops */
static bool next_chunk(thr *s, long *a, long *b)
{
    loopshare *l = s->cur;
    mg_yield();
    spin_lock(&s->t->spin);
    bool some = l->incr > 0 ? l->next < l->end : l->next > l->end;
    if (some) {
        *a = l->next;
        long e = l->next + l->incr * l->chunk;
        if (l->incr > 0 ? e > l->end : e < l->end) e = l->end;
        *b = e; l->next = e;
    }
    spin_unlock(&s->t->spin);
    return some;
}
#define LOOP(name) \
bool GOMP_loop_##name##_start(long a, long b, long i, long c, long *p, long *q) { share(self(), a, b, i, c); return next_chunk(self(), p, q); } \
bool GOMP_loop_##name##_next(long *p, long *q) { return next_chunk(self(), p, q); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(name) \
bool GOMP_loop_##name##_start(long a, long b, long i, long *p, long *q) { share(self(), a, b, i, 1); return next_chunk(self(), p, q); } \
bool GOMP_loop_##name##_next(long *p, long *q) { return next_chunk(self(), p, q); }
LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime)
typedef unsigned long long ull;
#define LOOPU(name) \
bool GOMP_loop_ull_##name##_start(bool up, ull a, ull b, ull i, ull c, ull *p, ull *q) \
    { share(self(), (long)a, (long)b, (long)i, (long)c); return next_chunk(self(), (long *)p, (long *)q); } \
bool GOMP_loop_ull_##name##_next(ull *p, ull *q) { return next_chunk(self(), (long *)p, (long *)q); }
LOOPU(dynamic) LOOPU(guided) LOOPU(nonmonotonic_dynamic) LOOPU(nonmonotonic_guided)
void GOMP_loop_end_nowait(void) { }
void GOMP_loop_end(void) { GOMP_barrier(); }

typedef struct { long a, b, i, c; } pre;
static void preset(team *t, void *v)
{
    pre *p = v;
    loopshare *l = calloc(1, sizeof *l);
    l->id = 1; l->next = p->a; l->end = p->b; l->incr = p->i; l->chunk = p->c < 1 ? 1 : p->c;
    t->shares = l;
}
/* the outlined function of a combined construct begins with ..._next() */
typedef struct { void (*fn)(void *); void *data; } call;
static void with_share(void *v) { call *c = v; share(self(), 0, 0, 1, 1); c->fn(c->data); }
#define PLOOP(name) \
void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long a, long b, long i, long c, unsigned flags) \
    { pre p = { a, b, i, c }; call k = { fn, data }; run_team(with_share, &k, n, preset, &p); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(name) \
void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long a, long b, long i, unsigned flags) \
    { pre p = { a, b, i, 1 }; call k = { fn, data }; run_team(with_share, &k, n, preset, &p); }
PLOOPR(runtime) PLOOPR(maybe_nonmonotonic_runtime) PLOOPR(nonmonotonic_runtime)

/* Sections */
unsigned GOMP_sections_next(void) { long a, b; return next_chunk(self(), &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_start(unsigned n) { share(self(), 1, (long)n + 1, 1, 1); return GOMP_sections_next(); }
void GOMP_sections_end_nowait(void) { }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned flags)
{
    pre p = { 1, (long)count + 1, 1, 1 }; call k = { fn, data };
    run_team(with_share, &k, n, preset, &p);
}

bool GOMP_single_start(void)
{
    long a, b;
    share(self(), 0, 1, 1, 1);
    return next_chunk(self(), &a, &b);
}

/* Queries */
int omp_get_thread_num(void) { return self()->num; }
int omp_get_num_threads(void) { return self()->t->n; }
int omp_get_max_threads(void) { return nthreads_var; }
void omp_set_num_threads(int n) { if (n > 0) nthreads_var = n; }
int omp_get_level(void) { return self()->t->level; }
int omp_get_active_level(void) { return self()->t->active_level; }
int omp_in_parallel(void) { return self()->t->active_level > 0; }
int omp_get_ancestor_thread_num(int l)
{
    thr *s = self();
    if (l < 0 || l > s->t->level) return -1;
    while (s->t->level > l) s = s->t->parent;
    return s->num;
}
int omp_get_team_size(int l)
{
    thr *s = self();
    if (l < 0 || l > s->t->level) return -1;
    while (s->t->level > l) s = s->t->parent;
    return s->t->n;
}
void omp_set_max_active_levels(int n) { max_active = n; }
int omp_get_max_active_levels(void) { return max_active; }
void omp_set_nested(int n) { max_active = n ? 8 : 1; }
int omp_get_nested(void) { return max_active > 1; }
void omp_set_dynamic(int n) { (void)n; }
int omp_get_dynamic(void) { return 0; }
int omp_get_num_procs(void) { return nthreads_var; }
int omp_get_thread_limit(void) { return 256; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
double omp_get_wtick(void) { return 1e-9; }

static void __attribute__((constructor)) init(void)
{
    const char *s = getenv("OMP_NUM_THREADS");
    if (s && atoi(s) > 0) nthreads_var = atoi(s);
    s = getenv("OMP_MAX_ACTIVE_LEVELS");
    if (s && atoi(s) > 0) max_active = atoi(s);
    s = getenv("MG_DELAY");
    if (s) seeded_delay = atoi(s);
}
