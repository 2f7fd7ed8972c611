import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    d={'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,
       'anchors':{'files':files,'mechanism':[{'name':mech,'where':files[0]}]}}
    P.append(d)
p('C01','Lognormal distributions are coherent however they are specified or combined',
  "The mean, median, standard deviation, mean of the log and standard deviation of the log which a lognormal distribution reports always describe one and the same distribution, the one specified, and its probabilities (at x >= 0) and quantiles are that distribution's (P(X<=x) + P(X>=x) = 1, quantile and probability are inverses, impossible probabilities give no value). Scaling by a factor or a number of components, summing independent distributions, and mixing distributions by weights give the distribution with the mean and variance that probability theory prescribes. A mean of zero, and certain (zero-dispersion) outcomes in sums and mixtures, give finite coherent results.",
  ['inputs'],'every way of specifying a distribution x every finite parameter combination x every list of distributions and weights',
  'lognormaldist_test checks a dozen fixed points; the coherence and moment identities quantify over all parameters and all lists.',
  ['src/lognormaldist.cpp','src/lognormaldist.h'],'factory functions converting between parameterisations; AddDistributions / AddWeightedDistributions moment matching; ScaleDistribution* and ApplyAdjustmentFactor')
p('C02','Deterministic functions follow their law, data and slope everywhere',
  "A non-linear hyperbolic or power-law function takes the value of its formula at every point of its domain; an interpolated function (linear or log-log) passes through its data points, is interpolated linearly (on linear or log axes) between them, and is held at the end values outside them. The reported derivative is the slope of the function wherever the function has one.",
  ['inputs'],'every parameter set and data table, every evaluation point in, at and outside the range, in any order of evaluation',
  'functions_test evaluates one curve of each kind at a few points.',
  ['src/functions.cpp','src/functions.h'],'NonLinearHyperbolicLaw, PowerLawParametricCurve, LinearInterpolatedFn, LogLogInterpolatedFn: ValueAt / DerivativeAt on GSL interpolation')
p('C03','A probabilistic function is the lognormal distribution its parameters specify',
  "At every x, a probabilistic function given by any of {mean, median, mean of log} and any of {sd, sd of log} has exactly those parameters, its other statistics are those of the same lognormal distribution, the probability of exceeding y is that distribution's upper tail (decreasing in y), and X_at_exceedence(x, p) is the demand not exceeded with probability p.",
  ['inputs'],'six ways of specifying the function x every pair of deterministic functions x every x, y and p in (0,1)',
  'functions_test covers two parameterisations at a handful of points.',
  ['src/functions.cpp','src/functions.h'],'LogNormalFn::P_exceedence, X_at_exceedence, Mean, MeanLn, Median, SD, SD_ln')
p('C04','Integration succeeds only with the right answer, within its limits',
  "For every integrand of the kinds the library integrates, an integration over [0, infinity) which is reported successful has, but for a small fraction of hard cases, the true integral within a small multiple of the requested tolerance, whichever of the methods is used, and ordinary functions which can be integrated with the available evaluations are. (A function whose mass the search for a starting point cannot see is taken as zero.) An integration which cannot meet its limits, or meets an undefined (NaN) value, is reported unsuccessful, having used no more evaluations than its limits allow for, and always terminates.",
  ['inputs','configurations'],'smooth and peaked integrands of any location, width and scale x five methods x tolerances x evaluation and search limits',
  'maq_test integrates a dozen functions at the default settings.',
  ['src/maq.cpp','src/maq.h'],'MAQ::Integrate: search for a start, binary/scattered/directed subdivision, limits')
p('C05','Integration settings take effect, and statistics account for every integration',
  "Settings read back as they were set, apply to every later integration, and a reset restores the defaults. After a reset of the statistics, at every quiescent point the number of integrations recorded is exactly the number made, each completed one counted under exactly one outcome, and the totals and maxima recorded are those which the integrations themselves reported, however many threads made them.",
  ['histories','configurations','schedules'],'any sequence of setting changes, resets and integrations, over any number of threads',
  'maq_test checks a few defaults; nothing checks the accounting or concurrent use.',
  ['src/maq.cpp','src/maq.h','src/pyslatcore.cpp'],'IntegrationSettings statics and overrides, stats in Integrate(), get_statistics / reset_statistics')
p('C06','At every intensity a structure is repaired, demolished or has collapsed',
  "At every intensity the probabilities of repair, demolition and collapse add up to one, the probability of collapse is the collapse distribution's (zero with none) and collapse plus demolition is the demolition distribution's, or collapse's where that is greater; none is negative. The annual rates of collapse and of demolition are those probabilities integrated against the hazard curve, and a rate of exceedence of any intensity is the hazard curve's.",
  ['inputs','histories'],'every hazard curve x collapse and demolition distribution, set in any order and changed at any time',
  'relationships_test computes the rates for one curve.',
  ['src/relationships.cpp','src/relationships.h'],'IM::pRepair/pDemolition/pCollapse, CollapseRate, DemolitionRate, lambda')
p('C07','The demand hazard is the intensity hazard convolved with the demand model',
  "The annual rate at which a demand parameter exceeds y is the integral over intensity of the probability of exceeding y (a structure not repaired counting as exceeding it) against the hazard curve, is non-increasing in y, and lists of values give what single values give, in order. A compound demand parameter takes, at each intensity, all its statistics from whichever of its two demand models has the larger mean there.",
  ['inputs'],'every hazard curve x demand model (pair) x fate probabilities x list of demands',
  'regression data are two structures and one tolerance; relationships_test one curve.',
  ['src/relationships.cpp','src/relationships.h'],'EDP::calc_lambda, par_lambda, CompoundEDP')
p('C08','Fragility functions partition outcomes into damage states',
  "At every demand the probability of reaching each damage state is that state's distribution at that demand, the probability that a state is the highest reached is the difference between those of reaching it and the next (never negative), so that where no state is likelier than a lesser one these add up, with no damage, to one.",
  ['inputs'],'every number of states, distribution parameters and demand including zero and very large',
  'fragility_test has one three-state function.',
  ['src/fragility.cpp','src/fragility.h'],'FragilityFn::pExceeded, pHighest')
p('C09','Loss functions give the cost of the mix of damage, for the number repaired',
  "The loss of a group of components is the weighted mixture of the losses of its damage states, multiplied by the number of components and the adjustment factor. A bi-level loss has its upper cost for counts up to its lower count, its lower cost from its upper count, and varies linearly, monotonically between them.",
  ['inputs'],'every kind of loss function, number of states, probabilities, count and adjustment factor',
  'loss_function_test checks one function of each kind.',
  ['src/loss_functions.cpp','src/loss_functions.h'],'SimpleLossFn, BiLevelLossFn::LossDist, LossFn::CalculateLoss')
p('C10','Component group losses are the demand, damage and loss models combined',
  "For every component group, its expected cost and delay, their dispersions, the probabilities of its damage states, its damage rates, cost exceedence rate and expected annual cost -- by demand, by intensity or over all intensities -- are those of its demand, fragility and loss models combined by total probability, for its count and adjustment factors.",
  ['inputs','configurations'],'every hazard, demand model, fragility, loss function, count, adjustment factors and intensity, with integration settings tight enough to converge',
  'comp_group_test compares one group with a table; the regression data are two structures with fixed settings.',
  ['src/comp_group.cpp','src/comp_group.h'],'CompGroup *_calc functions and their integrations')
p('C11','Structure losses add up over groups and fates',
  "At every intensity the repair cost of a structure has the sum of its groups' means and variances, its total cost is the mixture of repair, demolition and collapse costs by their probabilities, and its deaggregated costs add up to the total. Its expected annual cost (and dispersion) is the total cost integrated over the hazard, and the cost over t years discounted at rate r is the annual cost times (1-e^(-rt))/r, or times t without discounting; no discounting and certain outcomes give finite results, and a structure with no groups (having no intensity measure) gives no annual value rather than a wrong one.",
  ['inputs','configurations'],'every set of component groups, fate probabilities, rebuild and demolition cost, horizon and discount rate including zero',
  'structure_test has one structure; the regression data two.',
  ['src/structure.cpp','src/structure.h'],'Structure::Cost, DeaggregatedCost, CostsByFate, TotalCost, AnnualCost, E_cost')
p('C12','After any change, results are those of a model built afresh',
  "After any sequence of changes to a model (replacing any function, measure, parameter or group, changing collapse or demolition, rebuild or demolition costs, adding or removing groups), interleaved with any queries, every result is the same as for a model built from scratch in its final state; nothing computed before a change is reported after it, by any object which depends on what changed.",
  ['histories'],'every history of changes and queries, on every object of the dependency graph, including shared and compound objects',
  'unit tests replace one object and check one dependent.',
  ['src/relationships.cpp','src/comp_group.cpp','src/structure.cpp','src/replaceable.h','src/caching.h','src/functions.h'],'notify_change / ClearCache callback chain from functions through IM, EDP, CompGroup to Structure')
p('C13','A cache computes each value once, returns it to everyone, and never wedges',
  "Every read of a cached function or value returns what the function computes for that argument, computing it once however many threads ask for it at once, until it is cleared; after a clear returns, every later read reflects a computation begun after it. A computation which throws propagates to its caller, those waiting try again or get it too, and the cache stays usable, and no schedule of reads, clears and exceptions, with caching enabled or not, makes a reader wait for ever.",
  ['schedules','histories','fault_sequences'],'every interleaving of concurrent readers, clears and failing computations over few and many keys',
  'caching_test is sequential apart from one parallel loop, with no failing computation or concurrent clear.',
  ['src/caching.h','src/caching.cpp'],'CachedFunction / CachedValue waiting entries, mutex, Clear_Caches')
p('C14','Every client is told of every change exactly while it is registered',
  "A change to an object invokes each callback registered on it once, tells everything which depends on that object, directly or not, and no object which doesn't; no callback which has been removed or belongs to a deleted client is invoked. Replacing an object tells its clients about the change and hands them over to the replacement, together with its own clients, so later changes and replacements reach all of them; no sequence of registrations, removals, replacements and deletions loses, duplicates or mixes up clients.",
  ['histories'],'every history of registering, removing, replacing (chains, cycles, self) and notifying',
  'replaceable_test replaces one object once.',
  ['src/replaceable.h'],'Replaceable / Replaceable_Obj: replacements and callbacks keyed by id')
p('C15','No use of the interface makes the library misuse memory',
  "No sequence of operations on the public interface -- building models, querying them at any argument, changing, replacing, printing, removing and destroying their parts in any order, with any settings -- makes the library access memory it doesn't own or after freeing it, or execute undefined behaviour.",
  ['histories','inputs'],'every order of construction, use, change and destruction of model objects, and any query argument including zero, negative, infinite and NaN',
  'the unit tests run without sanitizers, in one order, and destroy everything at exit.',
  ['src/relationships.cpp','src/comp_group.cpp','src/structure.cpp','src/functions.cpp','src/replaceable.h','src/caching.h','src/maq.cpp'],'shared_ptr ownership, callbacks capturing raw this pointers, GSL handles')
p('C16','Concurrent queries are free of data races, and give what one thread gives',
  "Any set of queries on one model from any number of threads gives each the value a single thread gives, without data races or deadlock; the number of threads SLAT uses internally makes no difference to any result, to rounding.",
  ['schedules','configurations'],'every interleaving of concurrent queries on shared objects, every team size including one, nested or not',
  'tests run at the default team size, comparing files with one tolerance, without a race detector.',
  ['src/caching.h','src/maq.cpp','src/relationships.cpp','src/comp_group.cpp','src/structure.cpp','src/functions.cpp'],'OpenMP parallel loops and sections, cache mutexes, critical sections')
p('C17','Each thread has its own diagnostic context',
  "The context text a thread reports is exactly what that thread (under the threads which started its team) has pushed and not popped, in order, whatever other threads do at the same time; every pushed context is popped when its scope is left, including by an exception.",
  ['schedules','histories'],'every nesting of scopes and parallel regions, team size and interleaving',
  'nothing tests contexts.',
  ['src/context.cpp','src/context.h'],'Context stacks per thread, team growth, locking')
p('C18','The Python binding computes what the C++ library computes',
  "Every query made through the Python classes gives the value the C++ library gives for the same model, whichever of the accepted spellings, argument forms (scalar or list, optional delay or cost) was used, and redefining an object under an existing name brings everything which uses it up to date (except that a compound demand keeps the demand models its parts had when it was made). An error in the library raised by a query or constructor, or an invalid argument, reaches Python as an exception, not as a crash or a silent wrong value.",
  ['inputs','histories','programs'],'every class, method and argument form of the Python interface, and history of redefinitions',
  'Python is tested only through two regression scripts.',
  ['src/pyslat.py','src/pyslatcore.i','src/pyslatcore.cpp','src/pyslatcore.h'],'pyslat classes over the SWIG wrapper')
p('C19','A SLAT script means the equivalent sequence of API calls',
  "Every accepted SLAT script produces the model, settings and recorded files which the equivalent sequence of Python API calls produces, whatever the layout, comments, quoting, variables, anonymous or named definitions, and optional parts it uses. A script which refers to something undefined, or doesn't parse, is reported rather than silently misread.",
  ['programs'],'every program of the SLAT language',
  'tests run two SLAT scripts.',
  ['src/slatLexer.g4','src/slatParser.g4','src/SlatInterpreter.py'],'ANTLR grammar and the interpreter listener')
p('C20','Recorders write every requested value once, in order, with its key',
  "A recorder of a named object writes a header and exactly one row per requested point, in the order requested, with the key value, each column being the value of the corresponding query on the model at the time it is run, to six significant digits; files go where the output directory says and are written anew or appended to as asked, and a recorder run again after a change to the model writes the new values.",
  ['inputs','histories'],'every recorder type, column list and list of points, over changing models',
  'regression tests record two structures with fixed column lists.',
  ['src/pyslat.py'],'recorder class and its run method')
p('C21','Invalid definitions and requests are refused and change nothing',
  "A definition or request the library documents as invalid (wrong number of parameters or mismatched data, mixed or missing parameter kinds, state counts which do not match, missing objects, a component group on a different intensity measure) is refused with an exception, and leaves every existing object, setting and result unchanged.",
  ['inputs','histories'],'every kind of invalid definition or request, at any point of a history',
  'unit tests check a few exceptions, never what was left behind.',
  ['src/functions.cpp','src/loss_functions.cpp','src/lognormaldist.cpp','src/comp_group.cpp','src/structure.cpp','src/maq.cpp','src/pyslatcore.cpp'],'argument checks and throw statements')
import sys
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
