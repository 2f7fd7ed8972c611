/*
 * Histories of clients registering with, being removed from, and following
 * replaceable objects. A model of who is registered where says how often each
 * callback should have been called by each operation.
 *
 *   clienttest seed histories          sequential histories
 *   clienttest seed episodes par       concurrent registration, removal and
 *                                      notification
 */
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <omp.h>
#include "replaceable.h"
using namespace SLAT;

#ifdef MINIGOMP
extern "C" { void mg_seed(unsigned long, int, int); unsigned long mg_hash(void); long mg_switches(void); void mg_yield(void); }
#else
static void mg_seed(unsigned long, int, int) { }
static unsigned long mg_hash(void) { return 0; }
static long mg_switches(void) { return 0; }
static void mg_yield(void) { std::this_thread::yield(); }
#endif

struct Node : Replaceable<Node> { int serial; Node(int s) : serial(s) {} };

static long violations = 0, registrations = 0, removals = 0, notifications = 0, replacements = 0, selfs = 0, told = 0, merges = 0, deaths = 0, back = 0, empty_ = 0;
static unsigned long hist_hash;

static void viol(const char *rule, unsigned long h, const std::string &log, const char *fmt, int who, long got, long want)
{
    if (violations++ < 5) {
        printf("VIOL %s history %lu: ", rule, h); printf(fmt, who, got, want);
        printf(" -- after: %s\n", log.c_str());
    }
}

/* One registration, of a client with a node */
struct Client {
    std::shared_ptr<Node> at;   // as it has been told
    int id, serial;
    long changed = 0, replaced = 0;
    bool removed = false;
    Node *given = NULL;
};

static void sequential(unsigned long seed, unsigned long h)
{
    std::mt19937_64 r(seed * 1000003 + h);
    auto pick = [&] (int n) { return (int)(r() % n); };
    std::vector<std::shared_ptr<Node>> nodes;
    std::vector<std::shared_ptr<Client>> clients;       // every one there has been
    std::map<Client *, Node *> model;                  // where each is registered
    std::set<Node *> had;                               // nodes which have been replaced
    std::string log;
    int nn = 2 + pick(4), serial = 0;
    for (int i=0; i < nn; i++) nodes.push_back(std::make_shared<Node>(serial++));
    int steps = 5 + pick(60);
    for (int s=0; s < steps; s++) {
        std::map<Client *, int> want, wantr;            // calls expected of this step
        char text[80];
        int op = pick(12);
        std::shared_ptr<Node> n = nodes[pick(nodes.size())];
        if (op < 4) {
            auto c = std::make_shared<Client>();
            c->at = n; c->serial = clients.size();
            Client *p = c.get();
            c->id = n->add_callbacks([p] (void) { p->changed++; },
                                     [p] (std::shared_ptr<Node> to) { p->replaced++; p->at = to; p->given = to.get(); });
            clients.push_back(c); model[p] = n.get(); registrations++;
            snprintf(text, sizeof(text), "c%d on n%d; ", c->serial, n->serial);
        } else if (op < 6) {
            if (model.empty()) continue;
            auto it = model.begin(); std::advance(it, pick(model.size()));
            Client *c = it->first;
            // as a client's destructor does
            c->at->remove_callbacks(c->id); c->removed = true; removals++;
            model.erase(it);
            snprintf(text, sizeof(text), "c%d off; ", c->serial);
        } else if (op < 9) {
            n->notify_change(); notifications++;
            for (auto m : model) if (m.second == n.get()) want[m.first] = 1;
            if (want.empty()) empty_++;
            snprintf(text, sizeof(text), "n%d changed; ", n->serial);
        } else if (op < 11) {
            std::shared_ptr<Node> to = pick(8) == 0 ? std::make_shared<Node>(serial++) : nodes[pick(nodes.size())];
            bool fresh = std::find(nodes.begin(), nodes.end(), to) == nodes.end();
            if (fresh) nodes.push_back(to);
            bool both[2] = { false, false };
            for (auto m : model) { if (m.second == n.get()) both[0] = true; if (m.second == to.get()) both[1] = true; }
            if (both[0] && both[1] && n != to) merges++;
            if (had.count(to.get())) back++;
            had.insert(n.get());
            n->replace(to); replacements++;
            if (n == to) {
                selfs++;
                for (auto m : model) if (m.second == n.get()) {
                    // told that it has changed, or been replaced: one of them
                    if (m.first->replaced) wantr[m.first] = 1; else want[m.first] = 1;
                    m.first->given = NULL;
                }
            } else
                for (auto &m : model) if (m.second == n.get()) {
                    wantr[m.first] = 1; m.second = to.get();
                    if (m.first->given != to.get()) viol("client", h, log, "client %d was given something (%ld) other than the replacement (%ld)", m.first->serial, m.first->given ? m.first->given->serial : -1, to->serial);
                }
            snprintf(text, sizeof(text), "n%d replaced by n%d; ", n->serial, to->serial);
        } else {
            // forget a node, which its clients may still hold
            if (nodes.size() < 3) continue;
            nodes.erase(std::find(nodes.begin(), nodes.end(), n)); deaths++;
            snprintf(text, sizeof(text), "n%d forgotten; ", n->serial);
        }
        log += text;
        for (auto c : clients) {
            long w = want.count(c.get()) ? 1 : 0, wr = wantr.count(c.get()) ? 1 : 0;
            told += c->changed + c->replaced;
            if (c->changed != w) viol(c->removed ? "removed" : "client", h, log, "client %d told of a change %ld times, expected %ld", c->serial, c->changed, w);
            if (c->replaced != wr) viol(c->removed ? "removed" : "client", h, log, "client %d told of a replacement %ld times, expected %ld", c->serial, c->replaced, wr);
            c->changed = c->replaced = 0;
        }
        if (violations > 5) return;
    }
    for (char ch : log) hist_hash = hist_hash * 1099511628211ul + ch;
}

static std::set<unsigned long> interleavings;
static long switches = 0;

/*
 * Threads register, remove, and notify at once. A client registered throughout
 * is told of every change, once for each; one which has been removed is told
 * nothing; one which comes and goes, no more than once for each change which
 * was under way meanwhile.
 */
static void concurrent(unsigned long seed, unsigned long h)
{
    std::mt19937_64 r0(seed * 1000003 + h);
    int threads = 2 + r0() % 4, steady = 1 + r0() % 3, ops = 3 + r0() % 8;
    mg_seed(seed * 7919 + h, r0() % 3, 1 + r0() % 4);
    auto node = std::make_shared<Node>(0);
    struct C { std::atomic<long> changed; std::atomic<bool> gone; std::atomic<long> late; int id; C() : changed(0), gone(false), late(0) {} };
    std::vector<std::unique_ptr<C>> fixed;
    auto attach = [&] (C *c) { c->id = node->add_callbacks([c] (void) {
                if (c->gone.load(std::memory_order_relaxed)) c->late.fetch_add(1, std::memory_order_relaxed);
                c->changed.fetch_add(1, std::memory_order_relaxed); mg_yield(); }, [] (std::shared_ptr<Node>) {}); };
    for (int i=0; i < steady; i++) { fixed.emplace_back(new C); attach(fixed.back().get()); }
    std::atomic<long> begun(0), made(0);
    std::vector<std::vector<std::unique_ptr<C>>> mine(threads);
    std::atomic<long> over(0), dup(0);
    std::vector<std::vector<int>> ids(threads);
    unsigned long s0 = r0();
#pragma omp parallel num_threads(threads)
    {
        int me = omp_get_thread_num();
        std::mt19937_64 r(s0 + me * 77);
        for (int k=0; k < ops; k++) {
            if (r() % 2) { begun.fetch_add(1, std::memory_order_relaxed); node->notify_change(); made.fetch_add(1, std::memory_order_relaxed); }
            else {
                mine[me].emplace_back(new C); C *c = mine[me].back().get();
                long before = made.load(std::memory_order_relaxed);
                attach(c); ids[me].push_back(c->id);
                mg_yield();
                if (r() % 2) node->notify_change(), begun.fetch_add(1, std::memory_order_relaxed), made.fetch_add(1, std::memory_order_relaxed);
                node->remove_callbacks(c->id);
                c->gone.store(true, std::memory_order_relaxed);
                // a notification counts as begun only after it's made, at worst once for each thread
                if (c->changed.load(std::memory_order_relaxed) > begun.load(std::memory_order_relaxed) + threads - before) over++;
                mg_yield();
            }
        }
    }
    for (auto &c : fixed) {
        told += c->changed.load();
        if (c->changed.load() != made.load()) viol("client", h, "concurrent changes", "client %d told of %ld changes of %ld", 0, c->changed.load(), made.load());
    }
    std::set<int> all; long n = 0;
    for (auto &c : fixed) { all.insert(c->id); n++; }
    for (auto &v : ids) for (int i : v) { all.insert(i); n++; }
    if ((long)all.size() != n) viol("client", h, "concurrent registration", "ids of clients not distinct (%d: %ld of %ld)", 0, all.size(), n);
    for (auto &v : mine) for (auto &c : v) if (c->late.load()) viol("removed", h, "concurrent removal", "client %d told %ld times after it was removed (%ld)", 0, c->late.load(), 0);
    if (over.load()) viol("client", h, "concurrent changes", "client %d told more often (%ld) than there were changes (%ld)", 0, over.load(), 0);
    notifications += made.load(); registrations += n; removals += n - steady;
    interleavings.insert(mg_hash()); switches += mg_switches();
}

int main(int argc, char **argv)
{
    unsigned long seed = strtoul(argv[1], NULL, 10), n = strtoul(argv[2], NULL, 10);
    bool par = argc > 3;
    std::set<unsigned long> distinct;
    omp_set_dynamic(0);
    for (unsigned long h=0; h < n && violations < 5; h++) {
        hist_hash = 14695981039346656037ul;
        if (par) concurrent(seed, h); else { sequential(seed, h); distinct.insert(hist_hash); }
    }
    printf("DONE histories=%lu distinct=%zu registrations=%ld removals=%ld notifications=%ld notifications_with_no_clients=%ld replacements=%ld by_itself=%ld where_both_had_clients=%ld by_one_replaced_before=%ld nodes_forgotten=%ld callbacks=%ld switches=%ld violations=%ld\n",
           n, par ? interleavings.size() : distinct.size(), registrations, removals, notifications, empty_, replacements, selfs, merges, back, deaths, told, switches, violations);
    return 0;
}
