/*
 * Episodes of concurrent reads and clears of caches, whose computations may be
 * slow, fail, or read other caches. Every read, computation and clear is
 * recorded with the times it began and ended, and the record is judged when the
 * episode is over:
 *
 *   value     a read returns what a computation for its argument, completed by
 *             then, returned
 *   fresh     ... which began after the start of any clear which had returned
 *             before the read began
 *   once      two computations for one argument have a clear, or the failure
 *             of the first, between them
 *   failure   a read fails only if a computation overlapping it failed, and
 *             always if it was its own
 *   disabled  without caching (or for an undefined argument) a read returns
 *             a computation of its own
 */
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <vector>
#include <thread>
#include <unistd.h>
#include <omp.h>
#include <boost/log/core.hpp>
#include "caching.h"
#include "context.h"
using namespace SLAT;

#ifdef MINIGOMP
extern "C" { void mg_seed(unsigned long, int, int); unsigned long mg_hash(void); long mg_switches(void); long mg_steps(void); void mg_yield(void); }
#else
static void mg_seed(unsigned long, int, int) { }
static unsigned long mg_hash(void) { return 0; }
static long mg_switches(void) { return 0; }
static void mg_yield(void) { std::this_thread::yield(); }
#endif

#ifdef RELAXED
// leave no order between threads but that which the caches make
#define ORDER std::memory_order_relaxed
#else
#define ORDER std::memory_order_seq_cst
#endif

static std::atomic<long> clock_(0), ids(0);
static long now() { return clock_.fetch_add(1, ORDER); }

struct Failure : std::exception { long id; Failure(long i) : id(i) {} };

struct Comp { int cache, arg; long b, e; bool ok; double res; long ex; int read; };
struct Read { int cache, arg; long s, e; bool ok; double val; long ex; int comp; };
struct Clear { int cache; long s, e; };     // cache -1: all

struct Log { std::vector<Comp> comps; std::vector<Read> reads; std::vector<Clear> clears; std::vector<int> stack; std::minstd_rand rng; };
static std::vector<Log> logs;
static thread_local Log *log_;

static double code(int cache, int arg, long id) { return (cache * 16.0 + arg) * 1e9 + id; }

// what the arguments of an episode stand for: any number at all (and 15: undefined)
static std::vector<double> args;
static double number(int arg) { return arg == 15 ? NAN : args[arg] == 0 && log_->rng() % 2 ? -0.0 : args[arg]; }
static int argument(double x)
{
    if (std::isnan(x)) return 15;
    for (size_t i=0; i < args.size(); i++) if (args[i] == x) return (int)i;
    return 14;      // none of them
}
static void choose_args(std::mt19937 &r)
{
    static const double some[] = { 0, 1, 2, 3, -1, -2.5, 0.1, std::nextafter(0.1, 1), std::nextafter(0.1, 0), 1e-300, 5e-324, -5e-324, 1e300,
                                   INFINITY, -INFINITY, 1e15, 1e15 + 0.125, 4294967296.0, 4294967297.0, -1e-9, 1e-9, 1.5, 1.25, 1e19, 0.30000000000000004, 0.3 };
    const int n = sizeof(some) / sizeof(*some);
    args.clear();
    if (r() % 3 == 0) { for (int i=0; i < 14; i++) args.push_back(i); return; }
    int at = r() % n, step = r() % 2 ? 1 : 7;
    for (int i=0; i < 14; i++) args.push_back(some[(at + i * step) % n]);
}

struct Cache {
    int id; bool value, active;
    int depends;                      // computations read this one
    int failpct, slow;
    std::unique_ptr<Caching::CachedFunction<double, double>> f;
    std::unique_ptr<Caching::CachedValue<double>> v;
};
static std::vector<std::unique_ptr<Cache>> caches;

static double read(int c, int arg);

static void pause_(int n)
{
    for (int i=0; i < n; i++) {
#ifdef MINIGOMP
        mg_yield();
#else
        int r = log_->rng() % 40;
        if (r == 0) usleep(r * 7 % 60); else if (r < 20) std::this_thread::yield();
#endif
    }
}

static double compute(int c, int arg)
{
    Cache &k = *caches[c];
    Log &l = *log_;
    size_t at = l.comps.size();
    long id = ids.fetch_add(1, ORDER);
    l.comps.push_back({ c, arg, now(), 0, false, code(c, arg, id), 0, l.stack.empty() ? -1 : l.stack.back() });
    if (!l.stack.empty()) l.reads[l.stack.back()].comp = (int)at;
    pause_(l.rng() % (k.slow + 1));
    try {
        if (k.depends >= 0) { read(k.depends, arg); pause_(l.rng() % (k.slow + 1)); }
        if ((int)(l.rng() % 100) < k.failpct) throw Failure(id);
    } catch (Failure &f) {
        l.comps[at].ex = f.id; l.comps[at].e = now();
        throw;
    }
    l.comps[at].ok = true; l.comps[at].e = now();
    return l.comps[at].res;
}

static double read(int c, int arg)
{
    Cache &k = *caches[c];
    Log &l = *log_;
    if (k.value) arg = 0;
    int at = (int)l.reads.size();
    l.reads.push_back({ c, arg, now(), 0, false, 0, 0, -1 });
    l.stack.push_back(at);
    double r = 0;
    try {
        r = k.value ? (*k.v)() : (*k.f)(number(arg));
        l.stack.pop_back();
        l.reads[at].val = r; l.reads[at].ok = true; l.reads[at].e = now();
    } catch (Failure &f) {
        l.stack.pop_back();
        l.reads[at].ex = f.id; l.reads[at].e = now();
        throw;
    }
    return r;
}

static std::map<std::string, long> counts;
static long violations = 0;

static void viol(unsigned long episode, const char *rule, const char *fmt, ...)
{
    va_list ap;
    if (violations++ > 20) return;
    printf("VIOL %s episode %lu: ", rule, episode);
    va_start(ap, fmt); vprintf(fmt, ap); va_end(ap);
    printf("\n");
    if (violations > 3) return;
    for (size_t t=0; t < logs.size(); t++) {
        for (auto &r : logs[t].reads) printf("  thread %zu read cache %d(%d) [%ld,%ld] %s %.0f ex %ld own %d\n", t, r.cache, r.arg, r.s, r.e, r.ok ? "=" : "failed", r.val, r.ex, r.comp);
        for (auto &c : logs[t].comps) printf("  thread %zu computes cache %d(%d) [%ld,%ld] %s %.0f ex %ld\n", t, c.cache, c.arg, c.b, c.e, c.ok ? "=" : "failed", c.res, c.ex);
        for (auto &c : logs[t].clears) printf("  thread %zu clears cache %d [%ld,%ld]\n", t, c.cache, c.s, c.e);
    }
}

static void judge(unsigned long ep)
{
    std::vector<Clear> clears;
    struct C : Comp { long rs; };
    std::vector<C> comps;
    std::map<double, C *> byres;
    for (auto &l : logs) {
        clears.insert(clears.end(), l.clears.begin(), l.clears.end());
        for (auto &c : l.comps) { C x; (Comp &)x = c; x.rs = c.read >= 0 ? l.reads[c.read].s : c.b; comps.push_back(x); }
    }
    std::map<long, std::vector<C *>> failed;
    for (auto &c : comps) { byres[c.res] = &c; if (!c.ok) failed[c.ex].push_back(&c); }
    counts["computations"] += comps.size(); counts["clears"] += clears.size();
    for (auto &l : logs) for (auto &r : l.reads) {
        counts["reads"]++;
        Cache &k = *caches[r.cache];
        Comp *own = r.comp >= 0 ? &l.comps[r.comp] : NULL;
        if (!r.ok) {
            counts["failed reads"]++;
            bool any = false;
            for (auto c : failed[r.ex]) any |= c->cache == r.cache && c->arg == r.arg && c->b < r.e && c->e > r.s;
            if (!any) viol(ep, "failure", "read of cache %d(%d) failed with %ld, which no computation of it did then", r.cache, r.arg, r.ex);
            continue;
        }
        if (own && !own->ok && own->e < r.e && byres.count(r.val) && byres[r.val]->read >= 0 && byres[r.val]->b < own->b)
            viol(ep, "failure", "read of cache %d(%d) returned %.0f though its computation failed", r.cache, r.arg, r.val);
        auto it = byres.find(r.val);
        if (it == byres.end() || it->second->cache != r.cache || it->second->arg != r.arg) {
            viol(ep, "value", "read of cache %d(%d) [%ld,%ld] returned %.0f", r.cache, r.arg, r.s, r.e, r.val);
            continue;
        }
        C *c = it->second;
        if (!c->ok || c->e > r.e) viol(ep, "value", "read of cache %d(%d) [%ld,%ld] returned %.0f before it was computed", r.cache, r.arg, r.s, r.e, r.val);
        if (!own) counts[c->e < r.s ? "hits" : "reads which waited for another's computation"]++;
        if ((!k.active && !k.value) || r.arg == 15) {
            counts["uncached reads"]++;
            if (!own || own->res != r.val) viol(ep, "disabled", "uncached read of cache %d(%d) returned %.0f, not its own computation", r.cache, r.arg, r.val);
            continue;
        }
        for (auto &x : clears) if ((x.cache == -1 || x.cache == r.cache) && x.e < r.s) {
            if (c->b < x.s) viol(ep, "fresh", "read of cache %d(%d) [%ld,%ld] returned %.0f, computed from %ld, though cleared [%ld,%ld]",
                                 r.cache, r.arg, r.s, r.e, r.val, c->b, x.s, x.e);
            else counts["fresh values after a clear"]++;
        }
        for (auto &x : clears) if ((x.cache == -1 || x.cache == r.cache) && x.s < c->e && x.e > c->b) { counts["values computed during a clear"]++; break; }
    }
    for (auto &a : comps) for (auto &b : comps) {
        if (&a == &b || a.cache != b.cache || a.arg != b.arg || a.b > b.b) continue;
        Cache &k = *caches[a.cache];
        if ((!k.active && !k.value) || a.arg == 15) continue;
        bool excuse = !a.ok && a.e < b.b;
        for (auto &x : clears) excuse |= (x.cache == -1 || x.cache == a.cache) && x.e > std::min(a.rs, b.rs) && x.s < b.b;
        if (!excuse) viol(ep, "once", "cache %d(%d) computed twice: [%ld,%ld] and [%ld,%ld]", a.cache, a.arg, a.b, a.e, b.b, b.e);
        else counts["recomputations"]++;
    }
}

/*
 * Many arguments, one thread: each computed once, and again only when cleared
 */
static void many(unsigned long ep)
{
    std::mt19937_64 r(ep);
    long computed = 0, round = 0;
    Caching::CachedFunction<double, double> f([&] (double x) { computed++; return std::isnan(x) ? -1 : x + 0.5 * round; });
    std::set<double> xs;
    size_t n = 1 + r() % (r() % 4 ? 3000 : 60000);
    while (xs.size() < n) {
        double x; unsigned long b = r();
        switch (r() % 4) {
        case 0: memcpy(&x, &b, sizeof x); if (std::isnan(x)) x = 0; break;
        case 1: x = (double)(long)(b % 100000) - 50000; break;
        case 2: x = (b % 1000000) * 1e-6; break;
        default: x = -log((b % 1000000 + 1) * 1e-6);
        }
        xs.insert(x);
    }
    std::vector<double> v(xs.begin(), xs.end());
    for (round=0; round < 3; round++) {
        for (int again=0; again < 2; again++) {
            computed = 0;
            for (double x : v) if (f(x) != x + 0.5 * round) viol(ep, "value", "f(%g) of %zu arguments, round %ld", x, n, round);
            if (computed != (again ? 0 : (long)n)) viol(ep, "once", "%ld computations for %zu arguments, read %s", computed, n, again ? "again" : "first");
            counts["arguments of one cache"] += n;
        }
        if (round) Caching::Clear_Caches(); else f.ClearCache();
    }
}

int main(int argc, char **argv)
{
    unsigned long seed = strtoul(argv[1], NULL, 10); int episodes = atoi(argv[2]); bool judged = argc < 4;
    boost::log::core::get()->set_logging_enabled(false);
    setvbuf(stdout, NULL, _IOLBF, 0);
    std::set<unsigned long> hashes;
    {
        // the first caches of all, made by several threads at once
#pragma omp parallel num_threads(4)
        {
            Caching::CachedFunction<double, double> f([] (double x) { return 2 * x; });
            Caching::CachedValue<double> v([] () { return 3.0; });
            if (f(2) != 4 || v() != 3 || f(2) != 4) { printf("VIOL value first caches\n"); }
        }
    }
    for (int e=0; e < episodes; e++) {
        unsigned long ep = seed * 1000003ul + e;
        if (e % 1000 == 999) { logs.clear(); many(ep); }
        std::mt19937 r(ep);
        int nthreads = 2 + r() % 5, ncaches = 1 + r() % 4, nargs = 1 + r() % (r() % 8 ? 3 : 14), nops = 2 + r() % (r() % 16 ? 12 : 60);
        choose_args(r);
        int clearpct = r() % 3 == 0 ? 0 : 5 + r() % 35, failpct = r() % 3 == 0 ? 10 + r() % 50 : 0;
        caches.clear(); logs.clear(); logs.resize(nthreads);
        clock_ = 0; ids = 1;
        for (int c=0; c < ncaches; c++) {
            std::unique_ptr<Cache> k(new Cache);
            k->id = c; k->value = r() % 3 == 0; k->active = r() % 6 != 0; k->depends = c > 0 && r() % 2 ? (int)(r() % c) : -1;
            k->failpct = failpct; k->slow = r() % 6;
            if (k->value) k->v.reset(new Caching::CachedValue<double>([c] () { return compute(c, 0); }));
            else k->f.reset(new Caching::CachedFunction<double, double>([c] (double x) { return compute(c, argument(x)); }, "t", k->active));
            caches.push_back(std::move(k));
        }
        for (auto &l : logs) l.rng.seed(r());
        mg_seed(ep, r() % 2, 1 + r() % 4);
#pragma omp parallel num_threads(nthreads)
        {
            log_ = &logs[omp_get_thread_num()];
            Log &l = *log_;
            for (int i=0; i < nops; i++) {
                int x = l.rng() % 100, c = l.rng() % ncaches;
                try {
                    if (x < clearpct) {
                        bool all = l.rng() % 5 == 0;
                        l.clears.push_back({ all ? -1 : c, now(), 1l << 60 });
                        size_t at = l.clears.size() - 1;
                        if (all) Caching::Clear_Caches(); else if (caches[c]->value) caches[c]->v->ClearCache(); else caches[c]->f->ClearCache();
                        l.clears[at].e = now();
                    } else if (x > 96) {
                        // a cache which comes and goes
                        double base = l.rng() % 7;
                        Caching::CachedFunction<double, double> f([base] (double x) { pause_(1); return x + base; });
                        if (f(1) != 1 + base || f(2) != 2 + base || f(1) != 1 + base) viol(ep, "value", "temporary cache");
                    } else if (x > 93) {
                        read(c, 15);
                    } else read(c, l.rng() % nargs);
                } catch (Failure &) { }
                pause_(l.rng() % 2);
            }
        }
        hashes.insert(mg_hash());
        counts["switches"] += mg_switches();
        // usable afterwards
        log_ = &logs[0];
        for (auto &k : caches) { k->failpct = 0; }
        for (int c=0; c < ncaches; c++) for (int a=0; a < nargs; a++) { try { read(c, a); } catch (Failure &) { viol(ep, "failure", "cache %d fails afterwards", c); } }
        if (judged) judge(ep);
    }
    counts["episodes"] = episodes; counts["distinct interleavings"] = hashes.size();
    printf("DONE violations=%ld", violations);
    for (auto &c : counts) { std::string k = c.first; for (auto &ch : k) if (ch == ' ') ch = '_'; printf(" %s=%ld", k.c_str(), c.second); }
    printf("\n");
    fflush(stdout);
    _exit(0);
}
