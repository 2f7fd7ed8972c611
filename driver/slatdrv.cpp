/*
 * slatdrv: executes a script of SLAT operations through the library's public
 * C++ API, and records every observation as one line on the log (stdout):
 *
 *     <script line> <value> <value> ...      values observed
 *     <script line> ! <exception text>       the operation raised an exception
 *
 * The scripts are made by /verif/lib (seeded), and the logs are judged there.
 */
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <fstream>
#include <iostream>
#include <sstream>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <functional>
#include <atomic>
#include <stdexcept>
#include <omp.h>
#include <gsl/gsl_errno.h>
#include <boost/log/core.hpp>
#include "functions.h"
#include "relationships.h"
#include "fragility.h"
#include "loss_functions.h"
#include "comp_group.h"
#include "structure.h"
#include "lognormaldist.h"
#include "caching.h"
#include "context.h"
#include "maq.h"

#ifdef MINIGOMP
extern "C" { void mg_seed(unsigned long, int, int); unsigned long mg_hash(void); long mg_switches(void); long mg_steps(void); }
#endif

using namespace SLAT;
extern "C" { long heap_blocks(void) __attribute__((weak)); long heap_bytes(void) __attribute__((weak)); }
using std::string; using std::vector; using std::shared_ptr; using std::make_shared;
typedef vector<double> VD;

static std::map<string, shared_ptr<DeterministicFn>> dets;
static std::map<string, shared_ptr<ProbabilisticFn>> probs;
static std::map<string, LogNormalDist> dists;
static std::map<string, shared_ptr<IM>> ims;
static std::map<string, shared_ptr<EDP>> edps;
static std::map<string, shared_ptr<FragilityFn>> frags;
static std::map<string, shared_ptr<LossFn>> losses;
static std::map<string, shared_ptr<CompGroup>> cgs;
static std::map<string, shared_ptr<Structure>> structs;

/* Callbacks of our own, registered on objects of the model */
struct Watch { long changed = 0, replaced = 0; const void *at = NULL; std::function<void (void)> off; };
static std::map<string, shared_ptr<Watch>> watches;

template <class T> static void watch(shared_ptr<T> o, const string &name)
{
    auto w = make_shared<Watch>();
    auto at = make_shared<std::weak_ptr<T>>(o);
    w->at = o.get();
    Watch *p = w.get();
    int id = o->add_callbacks([p] (void) { p->changed++; },
                              [p, at] (shared_ptr<T> to) { p->replaced++; p->at = to.get(); *at = to; });
    w->off = [at, id] (void) { auto o = at->lock(); if (o) o->remove_callbacks(id); };
    watches[name] = w;
}

struct BadScript : std::runtime_error { BadScript(string s) : std::runtime_error(s) {} };

template <class M> static typename M::mapped_type &get(M &m, const string &id)
{
    auto it = m.find(id);
    if (it == m.end()) throw BadScript("no object " + id);
    return it->second;
}

struct Args {
    vector<string> w; size_t i = 0;
    string s() { if (i >= w.size()) throw BadScript("short line"); return w[i++]; }
    double d() { string t = s(); char *e; double v = strtod(t.c_str(), &e); if (*e) throw BadScript("number " + t); return v; }
    int n() { return (int)d(); }
    bool more() { return i < w.size(); }
    VD rest() { VD r; while (more()) r.push_back(d()); return r; }
};

static const void *find(const string &k, const string &id)
{
    if (k == "det") return get(dets, id).get(); if (k == "prob") return get(probs, id).get();
    if (k == "im") return get(ims, id).get(); if (k == "edp") return get(edps, id).get();
    if (k == "frag") return get(frags, id).get(); if (k == "loss") return get(losses, id).get();
    if (k == "cg") return get(cgs, id).get(); throw BadScript(k);
}

static VD parts(const LogNormalDist &d)
{
    return { d.get_mu_lnX(), d.get_sigma_lnX(), d.get_mean_X(), d.get_median_X(), d.get_sigma_X() };
}
static void app(VD &a, const VD &b) { a.insert(a.end(), b.begin(), b.end()); }

/*
 * Integrations of functions with known integrals; records the result, the
 * number of evaluations made, how many were undefined, and the largest and
 * smallest finite argument.
 */
static std::function<double (double)> integrand(const string &family, double A, double m, double s)
{
    std::function<double (double)> f;
    if (family == "lognormal") f = [=] (double x) { if (!(x > 0) || std::isinf(x)) return 0.0;
        double z = (log(x) - m) / s; return A * exp(-z * z / 2) / (x * s * sqrt(2 * M_PI)); };
    else if (family == "exp") f = [=] (double x) { return std::isinf(x) ? 0.0 : A * exp(-x / m) / m; };
    else if (family == "gamma") f = [=] (double x) { return (x <= 0 || std::isinf(x)) ? 0.0 :
        A * exp((s - 1) * log(x / m) - x / m - lgamma(s)) / m; };
    else if (family == "halfnormal") f = [=] (double x) { return std::isinf(x) ? 0.0 :
        A * exp(-x * x / (2 * m * m)) * sqrt(2 / M_PI) / m; };
    else if (family == "pareto") f = [=] (double x) { return std::isinf(x) ? 0.0 : A * (s - 1) / m * pow(1 + x / m, -s); };
    // for limits and termination only: no known integral
    else if (family == "const") f = [=] (double x) { return A; };
    else if (family == "step") f = [=] (double x) { return x > m ? A : 0.0; };
    else if (family == "box") f = [=] (double x) { return x > m && x < m + s ? A : 0.0; };
    else if (family == "osc") f = [=] (double x) { return std::isinf(x) ? 0.0 : A * sin(x / m) * exp(-x * s); };
    else if (family == "neg") f = [=] (double x) { return std::isinf(x) ? 0.0 : -A * exp(-x / m); };
    else if (family == "inf") f = [=] (double x) { return x > m ? INFINITY : A; };
    else if (family == "hash") f = [=] (double x) { return std::isinf(x) ? 0.0 : A * fabs(sin(1e6 * x) * sin(3.7 * x)) / (1 + x * x); };
    else if (family == "zero") f = [=] (double x) { return 0.0; };
    else throw BadScript("maq " + family);
    return f;
}

/*
 * Many integrations by many threads; records what they reported: calls,
 * successes, zeroes, unsuccessful, total and greatest evaluations of successes.
 */
static VD storm(const string &family, Args &a)
{
    int n = a.n(), threads = a.n(); double A = a.d(), m = a.d(), s = a.d();
    auto f = integrand(family, A, m, s);
    auto bad = [] (double) -> double { return NAN; };
    long good = 0, zero = 0, fail = 0; double total = 0, most = 0;
#pragma omp parallel for schedule(dynamic, 16) num_threads(threads) reduction(+:good,zero,fail,total) reduction(max:most)
    for (int i=0; i < n; i++) {
        Integration::MAQ_RESULT r = i % 4 == 3 ? Integration::MAQ(bad) :
            Integration::MAQ([&] (double x) { return i % 4 == 2 ? 0.0 : (1 + i % 8) * f(x); });
        if (!r.successful) { fail++; total += r.evaluations; }
        else if (r.integral == 0) zero++;
        else { good++; total += r.evaluations; if (r.evaluations > most) most = r.evaluations; }
    }
    return { (double)n, (double)good, (double)zero, (double)fail, total, most };
}

static VD integrate(const string &family, const string &opt, Args &a)
{
    double A = a.d(), m = a.d(), s = a.d(), k = a.d();
    std::atomic<long> evals(0), nans(0);
    std::function<double (double)> f = integrand(family, A, m, s);
    // opt: "-", "nan" (undefined beyond k), "nanlow" (undefined up to k), "nanat" (k-th evaluation), "throwat"
    auto g = [&] (double x) -> double {
        long n = ++evals;
        double v = f(x);
        if (opt == "nan" && x > k) v = NAN;
        if (opt == "nanlow" && x <= k) v = NAN;
        if (opt == "nanwin" && x >= k && x <= 1.5 * k) v = NAN;
        if (opt == "nanat" && n == (long)k) v = NAN;
        if (opt == "throwat" && n == (long)k) throw std::runtime_error("integrand");
        if (std::isnan(v)) ++nans;
        return v;
    };
    Integration::MAQ_RESULT r = Integration::MAQ(g);
    return { r.integral, r.successful ? 1.0 : 0.0, (double)r.evaluations, (double)evals, (double)nans };
}

/* An observation: evaluates a query, returning the values seen. */
static VD query(Args a)
{
    string kind = a.s(), id = a.s(), fn = a.s();
    if (kind == "det") {
        auto o = get(dets, id);
        double x = a.d();
        if (fn == "at") return { o->ValueAt(x) };
        if (fn == "deriv") return { o->DerivativeAt(x) };
    } else if (kind == "prob") {
        auto o = get(probs, id);
        double x = a.d();
        if (fn == "P") return { o->P_exceedence(x, a.d()) };
        if (fn == "X") return { o->X_at_exceedence(x, a.d()) };
        if (fn == "stats") return { o->MeanLn(x), o->SD_ln(x), o->Mean(x), o->Median(x), o->SD(x) };
    } else if (kind == "dist") {
        LogNormalDist o = get(dists, id);
        if (fn == "parts") return parts(o);
        double x = a.d();
        if (fn == "Q") return { o.p_at_least(x) };
        if (fn == "P") return { o.p_at_most(x) };
        if (fn == "inv") return { o.x_at_p(x) };
    } else if (kind == "im") {
        auto o = get(ims, id);
        if (fn == "collrate") return { o->CollapseRate() };
        if (fn == "demrate") return { o->DemolitionRate() };
        if (fn == "vlambda") return o->lambda(a.rest());
        if (fn == "vcoll") return o->pCollapse(a.rest());
        if (fn == "vdem") return o->pDemolition(a.rest());
        if (fn == "vrep") return o->pRepair(a.rest());
        double x = a.d();
        if (fn == "lambda") return { o->lambda(x) };
        if (fn == "deriv") return { o->DerivativeAt(x) };
        if (fn == "fates") return { o->pRepair(x), o->pDemolition(x), o->pCollapse(x) };
    } else if (kind == "edp") {
        auto o = get(edps, id);
        if (fn == "vlambda") return o->par_lambda(a.rest());
        if (fn == "vMean") return o->Mean(a.rest());
        if (fn == "vMeanLn") return o->MeanLn(a.rest());
        if (fn == "vMedian") return o->Median(a.rest());
        if (fn == "vSD_ln") return o->SD_ln(a.rest());
        if (fn == "vSD") return o->SD(a.rest());
        double x = a.d();
        if (fn == "lambda") return { o->lambda(x) };
        if (fn == "P") return { o->P_exceedence(x, a.d()) };
        if (fn == "X") return { o->X_at_exceedence(x, a.d()) };
        if (fn == "stats") return { o->MeanLn(x), o->SD_ln(x), o->Mean(x), o->Median(x), o->SD(x) };
    } else if (kind == "frag") {
        auto o = get(frags, id);
        if (fn == "n") return { (double)o->n_states() };
        double x = a.d();
        if (fn == "exc") return o->pExceeded(x);
        if (fn == "high") return o->pHighest(x);
    } else if (kind == "loss") {
        auto o = get(losses, id);
        if (fn == "n") return { (double)o->n_states() };
        if (fn == "calc") {
            int count = a.n(); double adj = a.d();
            return parts(o->CalculateLoss(a.rest(), count, adj));
        }
    } else if (kind == "cg") {
        auto o = get(cgs, id);
        if (fn == "annual") return { o->E_annual_cost() };
        if (fn == "rate") return o->Rate();
        double x = a.d();
        if (fn == "edpcost") return { o->E_cost_EDP(x), o->SD_ln_cost_EDP(x), o->SD_cost_EDP(x), o->mean_ln_cost_EDP(x) };
        if (fn == "edpdelay") return { o->E_delay_EDP(x), o->SD_ln_delay_EDP(x), o->SD_delay_EDP(x) };
        if (fn == "imcost") return { o->E_cost_IM(x), o->SD_ln_cost_IM(x) };
        if (fn == "imdelay") return { o->E_delay_IM(x), o->SD_ln_delay_IM(x) };
        if (fn == "distim") return parts(o->CostDist_IM(x));
        if (fn == "lambda") return { o->lambda_cost(x) };
        if (fn == "pds") return o->pDS_IM(x);
    } else if (kind == "struct") {
        auto o = get(structs, id);
        if (fn == "annual") return parts(o->AnnualCost());
        if (fn == "n") return { (double)o->Components().size() };
        if (fn == "npv") { double r = a.d(); VD y = a.rest(); vector<int> yy(y.begin(), y.end());
            if (yy.size() == 1) return { o->E_cost(yy[0], r) };
            return o->E_cost(yy, r); }
        if (fn == "vnpv") { double r = a.d(); VD y = a.rest(); vector<int> yy(y.begin(), y.end());
            return o->E_cost(yy, r); }
        double x = a.d();
        if (fn == "cost") return parts(o->Cost(x, a.n() != 0));
        if (fn == "total") return parts(o->TotalCost(x));
        if (fn == "pdf") return { o->pdf(x) };
        if (fn == "fates") { Structure::COSTS c = o->CostsByFate(x); VD r;
            app(r, parts(c.repair)); app(r, parts(c.demolition)); app(r, parts(c.collapse)); return r; }
        if (fn == "deagg") { auto p = o->DeaggregatedCost(x); VD r = parts(p.first); app(r, parts(p.second)); return r; }
    } else if (kind == "watch") {
        // since the last time: told of changes, of replacements, and whether it's now with the given object
        auto w = get(watches, id); VD r = { (double)w->changed, (double)w->replaced };
        w->changed = w->replaced = 0;
        if (a.more()) { string k = a.s(); r.push_back(w->at == find(k, a.s())); }
        return r;
    } else if (kind == "maq") {
        // an integration of a known function: id is the family, fn a label
        return fn == "storm" ? storm(id, a) : integrate(id, fn, a);
    } else if (kind == "get") {
        using namespace Integration;
        if (fn == "settings") return { IntegrationSettings::Get_Tolerance(),
                                       (double)IntegrationSettings::Get_Integration_Eval_Limit(),
                                       (double)IntegrationSettings::Get_Integration_Search_Limit(),
                                       (double)(int)IntegrationSettings::Get_Integration_Method() };
        if (fn == "format") {
            std::stringstream str; format_statistics(str); string l; std::map<string, double> m;
            while (std::getline(str, l)) { size_t p = l.find(": "); if (p != string::npos) m[l.substr(0, p)] = strtod(l.c_str() + p + 2, NULL); }
            VD r;
            for (const char *k : { "Number of Calls", "Successes", "Integration Failures", "NANs", "Number Search Fails", "Max Integration Evals",
                        "Total Integration Evals", "Total Search Evals", "Tolerance", "Integration Eval Limit", "Search Eval Limit" })
                r.push_back(m.count(k) ? m[k] : NAN);
            return r; }
        if (fn == "stats") { const IntegrationStats *s = get_statistics();
            return { (double)s->calls, (double)s->successes, (double)s->number_integration_fails,
                     (double)s->nans, (double)s->number_search_fails,
                     (double)s->max_successful_integration, (double)s->total_integrations_evals,
                     (double)s->max_successful_search, (double)s->total_search_evals,
                     s->tolerance, (double)s->eval_limit, (double)s->search_limit, (double)(int)s->method }; }
    }
    throw BadScript("query " + kind + " " + fn);
}

/*
 * With SLATDRV_CTX set, the context of a thread is compared before and after each
 * of its queries: what a query pushes, it also pops, even if it fails.
 */
static bool watch_context = getenv("SLATDRV_CTX") != NULL;
static std::atomic<long> contexts_compared(0), contexts_changed(0);
static VD observe(Args a)
{
    if (!watch_context) return query(a);
    struct Compare {
        string before; std::unique_ptr<TempContext> own;
        static string text() { string t; for (char c : Context::GetText()) if (c != '/') t += c; return t; }
        Compare() : own(new TempContext("query" + std::to_string(omp_get_thread_num()))) { before = text(); }
        ~Compare() { contexts_compared++;
            if (text() != before) { contexts_changed++; fprintf(stderr, "CONTEXT \"%s\" became \"%s\"\n", before.c_str(), text().c_str()); } }
    } compare;
    return query(a);
}

static LogNormalDist make_dist(Args &a)
{
    string t = a.s();
    if (t == "default") return LogNormalDist();
    if (t == "scale") { LogNormalDist o = get(dists, a.s()); return o.ApplyAdjustmentFactor(a.d()); }
    if (t == "scalep") { LogNormalDist o = get(dists, a.s()); return o.ScaleDistributionByProbability(a.d()); }
    if (t == "scalen") { LogNormalDist o = get(dists, a.s()); return o.ScaleDistributionByNumComponents(a.d()); }
    if (t == "sum") { vector<LogNormalDist> v; int n = a.n(); for (int i=0; i < n; i++) v.push_back(get(dists, a.s()));
        return LogNormalDist::AddDistributions(v); }
    if (t == "mix") { vector<LogNormalDist> v; int n = a.n(); for (int i=0; i < n; i++) v.push_back(get(dists, a.s()));
        return LogNormalDist::AddWeightedDistributions(v, a.rest()); }
    double m = a.d(), s = a.d();
    if (t == "muln_sdln") return LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(m, s);
    if (t == "mean_sdln") return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(m, s);
    if (t == "median_sdln") return LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(m, s);
    if (t == "mean_sd") return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(m, s);
    throw BadScript("dist " + t);
}

template <class M> static void do_replace(M &m, const string &o, const string &n) { get(m, o)->replace(get(m, n)); }

static void print(int line, const VD &v)
{
    printf("%d", line);
    for (double d : v) printf(" %.17g", d);
    printf("\n");
}

static bool command(const string &cmd, Args &a, int line)
{
    using namespace Integration;
    if (cmd == "det") {
        string id = a.s(), t = a.s();
        if (t == "nlh") { double v = a.d(), i = a.d(), al = a.d(); dets[id] = make_shared<NonLinearHyperbolicLaw>(v, i, al); }
        else if (t == "pow") { double x = a.d(), y = a.d(); dets[id] = make_shared<PowerLawParametricCurve>(x, y); }
        else { VD r = a.rest(); size_t n = r.size() / 2;
            if (t == "lin") dets[id] = make_shared<LinearInterpolatedFn>(r.data(), r.data() + n, n);
            else if (t == "loglog") dets[id] = make_shared<LogLogInterpolatedFn>(r.data(), r.data() + n, n);
            else throw BadScript(t); }
    } else if (cmd == "prob") {
        string id = a.s(), mt = a.s(), st = a.s(); auto f = get(dets, a.s()); auto g = get(dets, a.s());
        LogNormalFn::M_TYPE m = mt == "mean_ln" ? LogNormalFn::MEAN_LN_X : mt == "mean" ? LogNormalFn::MEAN_X :
            mt == "median" ? LogNormalFn::MEDIAN_X : LogNormalFn::MEAN_INVALID;
        LogNormalFn::S_TYPE s = st == "sd_ln" ? LogNormalFn::SIGMA_LN_X : st == "sd" ? LogNormalFn::SIGMA_X : LogNormalFn::SIGMA_INVALID;
        probs[id] = make_shared<LogNormalFn>(f, m, g, s);
    } else if (cmd == "dist") { string id = a.s(); dists[id] = make_dist(a);
    } else if (cmd == "im") { string id = a.s(); ims[id] = make_shared<IM>(get(dets, a.s()), id);
    } else if (cmd == "collapse") { auto o = get(ims, a.s()); o->SetCollapse(get(dists, a.s()));
    } else if (cmd == "demolition") { auto o = get(ims, a.s()); o->SetDemolition(get(dists, a.s()));
    } else if (cmd == "collapsep") { auto o = get(ims, a.s()); o->SetCollapse(make_shared<LogNormalDist>(get(dists, a.s())));
    } else if (cmd == "demolitionp") { auto o = get(ims, a.s()); o->SetDemolition(make_shared<LogNormalDist>(get(dists, a.s())));
    } else if (cmd == "edp") { string id = a.s(); auto i = get(ims, a.s()); auto p = get(probs, a.s());
        edps[id] = make_shared<EDP>(i, p, id);
    } else if (cmd == "cedp") { string id = a.s(); auto i = get(ims, a.s()); auto p = get(probs, a.s()); auto q = get(probs, a.s());
        edps[id] = make_shared<CompoundEDP>(i, p, q, id);
    } else if (cmd == "frag") { string id = a.s(); vector<LogNormalDist> v; while (a.more()) v.push_back(get(dists, a.s()));
        frags[id] = make_shared<FragilityFn>(v);
    } else if (cmd == "sloss") { string id = a.s(); vector<LogNormalDist> v; while (a.more()) v.push_back(get(dists, a.s()));
        losses[id] = make_shared<SimpleLossFn>(v);
    } else if (cmd == "bloss") { string id = a.s(); vector<shared_ptr<BiLevelLoss>> v;
        while (a.more()) { int lo = a.n(), hi = a.n(); double cl = a.d(), ch = a.d(), s = a.d();
            v.push_back(make_shared<BiLevelLoss>(lo, hi, cl, ch, s)); }
        losses[id] = make_shared<BiLevelLossFn>(v);
    } else if (cmd == "cg") { string id = a.s(); auto e = get(edps, a.s()); auto f = get(frags, a.s());
        string c = a.s(), d = a.s(); shared_ptr<LossFn> cf, df;
        if (c != "-") cf = get(losses, c);
        if (d != "-") df = get(losses, d);
        int n = a.n(); double ca = a.d(), da = a.d();
        cgs[id] = make_shared<CompGroup>(e, f, cf, df, n, ca, da, id);
    } else if (cmd == "struct") { string id = a.s(); structs[id] = make_shared<Structure>(id);
    } else if (cmd == "addcg") { auto s = get(structs, a.s()); s->AddCompGroup(get(cgs, a.s()));
    } else if (cmd == "rmcg") { auto s = get(structs, a.s()); s->RemoveCompGroup(get(cgs, a.s()));
    } else if (cmd == "rebuild") { auto s = get(structs, a.s()); s->setRebuildCost(get(dists, a.s()));
    } else if (cmd == "demol") { auto s = get(structs, a.s()); s->setDemolitionCost(get(dists, a.s()));
    } else if (cmd == "replace") {
        string k = a.s(), o = a.s(), n = a.s();
        if (k == "det") do_replace(dets, o, n); else if (k == "prob") do_replace(probs, o, n);
        else if (k == "im") do_replace(ims, o, n); else if (k == "edp") do_replace(edps, o, n);
        else if (k == "frag") do_replace(frags, o, n); else if (k == "loss") do_replace(losses, o, n);
        else if (k == "cg") do_replace(cgs, o, n); else if (k == "struct") do_replace(structs, o, n); else throw BadScript(k);
    } else if (cmd == "notify") {
        string k = a.s(), o = a.s();
        if (k == "det") get(dets, o)->notify_change(); else if (k == "prob") get(probs, o)->notify_change();
        else if (k == "im") get(ims, o)->notify_change(); else if (k == "edp") get(edps, o)->notify_change();
        else if (k == "frag") get(frags, o)->notify_change(); else if (k == "loss") get(losses, o)->notify_change();
        else if (k == "cg") get(cgs, o)->notify_change(); else throw BadScript(k);
    } else if (cmd == "watch") {
        string k = a.s(), o = a.s(), n = a.s();
        if (k == "det") watch(get(dets, o), n); else if (k == "prob") watch(get(probs, o), n);
        else if (k == "im") watch(get(ims, o), n); else if (k == "edp") watch(get(edps, o), n);
        else if (k == "frag") watch(get(frags, o), n); else if (k == "loss") watch(get(losses, o), n);
        else if (k == "cg") watch(get(cgs, o), n); else throw BadScript(k);
    } else if (cmd == "unwatch") { get(watches, a.s())->off();
    } else if (cmd == "del") {
        string k = a.s(), o = a.s();
        if (k == "det") dets.erase(o); else if (k == "prob") probs.erase(o); else if (k == "im") ims.erase(o);
        else if (k == "edp") edps.erase(o); else if (k == "frag") frags.erase(o); else if (k == "loss") losses.erase(o);
        else if (k == "cg") cgs.erase(o); else if (k == "struct") structs.erase(o); else throw BadScript(k);
    } else if (cmd == "delall") {
        // Destroy everything, in the order given
        while (a.more()) { string k = a.s();
            if (k == "det") dets.clear(); else if (k == "prob") probs.clear(); else if (k == "im") ims.clear();
            else if (k == "edp") edps.clear(); else if (k == "frag") frags.clear(); else if (k == "loss") losses.clear();
            else if (k == "cg") cgs.clear(); else if (k == "struct") structs.clear();
            else if (k == "dist") dists.clear(); else if (k == "watch") watches.clear(); else throw BadScript(k); }
    } else if (cmd == "heap") {
        // what is allocated, where that is counted (and nothing of it is ours)
        if (heap_blocks) printf("%d %ld %ld\n", line, heap_blocks(), heap_bytes());
    } else if (cmd == "str") {
        string k = a.s(), o = a.s(); std::stringstream out;
        if (k == "det") out << *get(dets, o); else if (k == "prob") out << *get(probs, o); else if (k == "im") out << get(ims, o)->ToString();
        else if (k == "edp") out << *get(edps, o); else if (k == "frag") out << *get(frags, o); else if (k == "cg") out << *get(cgs, o);
        else if (k == "dist") out << get(dists, o);
        else if (k == "stats") Integration::format_statistics(out);
        else if (k == "struct") { for (auto c : get(structs, o)->Components()) out << *c; out << get(structs, o)->get_Name(); } else throw BadScript(k);
        printf("%d %zu\n", line, out.str().size());
    } else if (cmd == "tol") { IntegrationSettings::Set_Tolerance(a.d());
    } else if (cmd == "evallimit") { IntegrationSettings::Set_Integration_Eval_Limit((unsigned)a.d());
    } else if (cmd == "searchlimit") { IntegrationSettings::Set_Integration_Search_Limit((unsigned)a.d());
    } else if (cmd == "method") { IntegrationSettings::Set_Integration_Method((IntegrationSettings::METHOD_TYPE)a.n());
    } else if (cmd == "usedefault") { string t = a.s();
        if (t == "tol") IntegrationSettings::Use_Default_Tolerance();
        else if (t == "evallimit") IntegrationSettings::Use_Default_Integration_Eval_Limit();
        else if (t == "searchlimit") IntegrationSettings::Use_Default_Integration_Search_Limit();
        else if (t == "method") IntegrationSettings::Use_Default_Method(); else throw BadScript(t);
    } else if (cmd == "reset") { IntegrationSettings::Reset();
    } else if (cmd == "resetstats") { reset_statistics();
    } else if (cmd == "clearcaches") { Caching::Clear_Caches();
    } else if (cmd == "threads") { omp_set_num_threads(a.n());
    } else if (cmd == "nest") { omp_set_max_active_levels(a.n());
    } else return false;
    return true;
}

static Args split(const string &s)
{
    Args a; std::istringstream in(s); string t; while (in >> t) a.w.push_back(t); return a;
}

int main(int argc, char **argv)
{
    setvbuf(stdout, NULL, _IOLBF, 0);
    boost::log::core::get()->set_logging_enabled(false);
    // The library chats on std::cout; keep that out of the log.
    std::cout.rdbuf(std::cerr.rdbuf());
    Context::Initialise();
#ifdef MINIGOMP
    const char *schedule = getenv("SLATDRV_SCHEDULE");     // seed, policy, how often to switch
    if (schedule) { unsigned long s = 1; int p = 0, e = 3; sscanf(schedule, "%lu,%d,%d", &s, &p, &e); mg_seed(s, p, e); }
#endif
    std::ifstream file;
    if (argc > 1) file.open(argv[1]);
    std::istream &in = argc > 1 ? (std::istream &)file : std::cin;
    string text; int line = 0;
    // Errors in GSL end the program unless someone says otherwise, as it does for everyone
    while (std::getline(in, text)) {
        line++;
        Args a = split(text);
        if (a.w.empty() || a.w[0][0] == '#') continue;
        string cmd = a.s();
        try {
            if (cmd == "q") {
                print(line, observe(a));
            } else if (cmd == "par") {
                // The next n lines are queries, to be made concurrently
                int n = a.n(), first = line; vector<Args> qs; vector<VD> rs(n); vector<string> err(n);
                for (int i=0; i < n; i++) { std::getline(in, text); line++; Args q = split(text); q.s(); qs.push_back(q); }
#pragma omp parallel for schedule(dynamic, 1)
                for (int i=0; i < n; i++) {
                    try { rs[i] = observe(qs[i]); } catch (std::exception &e) { err[i] = e.what(); if (err[i].empty()) err[i] = "?"; }
                }
                for (int i=0; i < n; i++) {
                    if (err[i].empty()) print(first + 1 + i, rs[i]); else printf("%d ! %s\n", first + 1 + i, err[i].c_str());
                }
            } else if (!command(cmd, a, line)) {
                fprintf(stderr, "slatdrv: line %d: bad command %s\n", line, cmd.c_str());
                return 3;
            }
        } catch (BadScript &e) {
            // with SLATDRV_LENIENT set, objects needn't exist (making them may have failed)
            if (getenv("SLATDRV_LENIENT")) { printf("%d ? %s\n", line, e.what()); continue; }
            fprintf(stderr, "slatdrv: line %d: %s\n", line, e.what());
            return 3;
        } catch (std::exception &e) {
            printf("%d ! %s\n", line, e.what());
        }
    }
#ifdef MINIGOMP
    printf("SCHEDULE %lu %ld %ld\n", mg_hash(), mg_switches(), mg_steps());
#endif
    if (watch_context) printf("CONTEXTS %ld %ld\n", contexts_compared.load(), contexts_changed.load());
    printf("END %d\n", line);
    fflush(stdout);
    return 0;
}
