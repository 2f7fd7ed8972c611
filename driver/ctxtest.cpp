/*
 * Threads push and pop contexts, in nested scopes and teams, leaving some of
 * the scopes by exceptions. Each keeps a record of what it, and those which
 * started its team, have pushed, and compares it with what is reported.
 *
 *   ctxtest seed episodes [lazy]
 */
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <thread>
#include <omp.h>
#include "context.h"
using namespace SLAT;

#ifdef MINIGOMP
extern "C" { void mg_seed(unsigned long, int, int); unsigned long mg_hash(void); long mg_switches(void); void mg_yield(void); }
#else
static void mg_seed(unsigned long, int, int) { }
static unsigned long mg_hash(void) { return 0; }
static long mg_switches(void) { return 0; }
static void mg_yield(void) { }
#endif
#define RLX std::memory_order_relaxed

static std::atomic<long> violations(0), reports(0), pushes(0), thrown(0), regions(0), nested(0), alone(0), deepest(0), longest(0), serial(0), lazyfn(0);
static unsigned long episode;
struct Thrown { int to; };

static std::vector<std::string> tokens(const std::string &s)
{
    std::vector<std::string> r; std::string t;
    for (char c : s + "/") if (c == '/') { if (!t.empty()) r.push_back(t); t.clear(); } else t += c;
    return r;
}

static std::string join(const std::vector<std::string> &v) { std::string r; for (auto &s : v) r += s + " "; return r; }

static void check(const std::vector<std::string> &want, const char *when)
{
    std::vector<std::string> got = tokens(Context::GetText());
    reports.fetch_add(1, RLX);
    if ((long)want.size() > longest.load(RLX)) longest.store(want.size(), RLX);
    if (got != want && violations.fetch_add(1, RLX) < 5) {
#pragma omp critical (report)
        printf("VIOL context episode %lu: a thread (level %d, number %d of %d) reports \"%s\" %s, but has pushed \"%s\"\n",
               episode, omp_get_level(), omp_get_thread_num(), omp_get_num_threads(), join(got).c_str(), when, join(want).c_str());
    }
}

/* stack: what this thread, and those above it, have pushed */
static void play(std::mt19937_64 &r, std::vector<std::string> &stack, int depth, int level, int budget)
{
    for (int i=0; i < budget; i++) {
        int op = r() % 10;
        mg_yield();
        if (op < 3) check(stack, "within a scope");
        else if (op < 7 && depth < 6) {
            size_t before = stack.size();
            std::string name = "s" + std::to_string(serial.fetch_add(1, RLX));
            bool fn = r() % 2;
            bool leave = r() % 5 == 0; int to = r() % (depth + 1);
            try {
                auto body = [&] () {
                    stack.push_back(name); pushes.fetch_add(1, RLX);
                    check(stack, "on entering a scope");
                    play(r, stack, depth + 1, level, 1 + r() % 3);
                    check(stack, "before leaving a scope");
                    if (leave) { thrown.fetch_add(1, RLX); throw Thrown { to }; }
                };
                if (fn) { lazyfn.fetch_add(1, RLX); TempContext c([name] (std::ostream &o) { o << name; }); body(); }
                else { TempContext c(name); body(); }
                stack.pop_back();
                check(stack, "after leaving a scope");
            } catch (Thrown &t) {
                stack.resize(before);
                check(stack, "after an exception left a scope");
                if (t.to < depth) throw;
            }
        } else if (op < 9 && level < 3) {
            int n = r() % 6 == 0 ? 1 : 2 + r() % 3;
            regions.fetch_add(1, RLX);
            if (level > 0) nested.fetch_add(1, RLX);
            if (n == 1) alone.fetch_add(1, RLX);
            if (level + 1 > deepest.load(RLX)) deepest.store(level + 1, RLX);
            unsigned long s = r();
            const std::vector<std::string> &mine = stack;
#pragma omp parallel num_threads(n)
            {
                std::vector<std::string> st = mine;
                std::mt19937_64 rr(s + 1000 * omp_get_thread_num());
                check(st, "on joining a team");
                try { play(rr, st, 0, level + 1, 2 + rr() % 3); } catch (Thrown &) { st = mine; }
                check(st, "before leaving a team");
            }
            check(stack, "after a team has finished");
        }
    }
}

int main(int argc, char **argv)
{
    unsigned long seed = strtoul(argv[1], NULL, 10), n = strtoul(argv[2], NULL, 10);
    bool lazy = argc > 3;
    omp_set_dynamic(0);
    if (!lazy) Context::Initialise();
    std::set<unsigned long> inter;
    for (episode=0; episode < n && violations.load() < 5; episode++) {
        std::mt19937_64 r(seed * 1000003 + episode);
        mg_seed(seed * 7919 + episode, r() % 3, 1 + r() % 4);
        omp_set_max_active_levels(1 + r() % 3);
        if (lazy && episode == 0) {
            // the first context of all may be any thread's
            unsigned long s = r();
#pragma omp parallel num_threads(4)
            { std::vector<std::string> st; std::mt19937_64 rr(s + omp_get_thread_num());
                try { play(rr, st, 0, 1, 4); } catch (Thrown &) { st.clear(); }
                check(st, "after the first scopes"); }
        }
        std::vector<std::string> stack;
        try { play(r, stack, 0, 0, 3 + r() % 6); } catch (Thrown &) { stack.clear(); }
        check(stack, "at the end");
        inter.insert(mg_hash()); 
    }
    printf("DONE episodes=%lu distinct_interleavings=%zu contexts=%ld of_them_functions=%ld reports=%ld exceptions=%ld teams=%ld nested_teams=%ld teams_of_one=%ld deepest_team=%ld longest_context=%ld switches=%ld violations=%ld\n",
           n, inter.size(), pushes.load(), lazyfn.load(), reports.load(), thrown.load(), regions.load(), nested.load(), alone.load(), deepest.load(), longest.load(), mg_switches(), violations.load());
    return 0;
}
