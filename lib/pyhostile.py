"""Calls of every part of pyslat with arguments of every kind; only how the process fares is judged."""
import random

VALUES = ['None', '0', '1', '-1', '2', '0.3', '-0.5', '1e308', '1e-308', "float('nan')", "float('inf')", "-float('inf')", "''", "'x'", "'mean_x'",
          '[]', '[1]', '[1, 2]', '[0.1, 0.2, 0.3]', '[None]', "['x']", '[[1, 2]]', '[[0.1, 0.4], [0.2, 0.4]]', '[[1, 2, 3], [4, 5, 6]]', '{}', "{'mu': 1}", '()', '(1, 2)',
          '2**31 - 1', '2**31', '-2**31', '2**63', '2**70', 'True', 'np.array([0.1, 0.5])', 'np.array([])', 'np.float64(0.2)', 'np.int64(3)',
          'object()', 'float', '1j', "b'x'", "'power law'", "'lognormal'", "'hyperbolic'", "'linear'", "'loglog'",
          "{'mu': MU.MEDIAN_X, 'sd': SD.SD_LN_X}", "{'mu': MU.MEAN_X, 'sd': SD.SD_X}", 'MU.MEAN_X', 'SD.SD_LN_X', '[MU.MEDIAN_X, d2]', '[SD.SD_LN_X, d3]', '[MU.MEAN_X, None]', '[7, d2]',
          '[l1, l2]', '[l1, None]', '[b1]', '[None, b1]', '[[1, 10, 1.0, 0.5, 0.4]]', '[[10, 1, -1.0, 5, 0.4]]', '[[-2**31, 2**31 - 1, 1.0, 0.5, 0.4]]']
OBJECTS = ['d1', 'd2', 'd3', 'p1', 'i1', 'i2', 'e1', 'e2', 'f1', 'lo1', 'lo2', 'c1', 'c2', 's1', 's2', 'l1', 'l2', 'b1']
CORE = ['%s.function()' % o for o in ('d1', 'd2', 'p1', 'i1', 'e1', 'f1', 'lo1', 'c1')] + ['s1._structure', 'e1.function', 'P.im', 'core.IM']
NAMES = ["'a'", "'b'", "'c'", 'None', '1', "'a'", "('x', 2)", "''", '1.5']
# what makes sense in each place; anything else comes in too
KINDS = {'id': NAMES, 'x': ['0.1', '0.5', '1', '[0.1, 0.5]', '0', '-1', "float('nan')", "float('inf')", '[]', '1e300', '(0.1, 0.2)', 'None'],
         'n': ['1', '3', '0', '-1', '2**31 - 1', '-2**31', '1.5', '2**40'], 'p': ['0.5', '0', '1', '-1', '2', "float('nan')"],
         'det': ['d1', 'd2', 'd3', 'P.detfn.lookup("a")'], 'prob': ['p1', 'P.probfn.lookup("a")'], 'im': ['i1', 'i2', 'P.im.lookup("a")'],
         'edp': ['e1', 'e2', 'P.edp.lookup("a")'], 'frag': ['f1', 'P.fragfn.lookup("a")'], 'loss': ['lo1', 'lo2', 'None', 'P.lossfn.lookup("a")'],
         'cg': ['c1', 'c2', 'P.compgroup.lookup("a")'], 'dist': ['l1', 'l2', 'core.MakeLogNormalDist()'],
         'detf': ['d1.function()', 'd2._func'], 'probf': ['p1.function()'], 'imf': ['i1.function()'], 'edpf': ['e1.function()', 'e2.function()'],
         'fragf': ['f1.function()'], 'lossf': ['lo1.function()', 'None'], 'cgf': ['c1.function()', 'c2.function()'],
         'mt': ['MU.MEAN_X', 'MU.MEDIAN_X', 'MU.MEAN_LN_X', '3', '-1', '99'], 'st': ['SD.SD_X', 'SD.SD_LN_X', '2', '-1', '99'],
         'ft': ['core.NLH', 'core.PLC', 'core.LIN', 'core.LOGLOG', '4', '-1', '99'], 'opt': ["{'mu': MU.MEDIAN_X, 'sd': SD.SD_LN_X}", "{'mu': MU.MEAN_X, 'sd': SD.SD_X}", "{'mu': 9, 'sd': 9}", '{}'],
         'type': ["'power law'", "'hyperbolic'", "'linear'", "'loglog'", "'?'"], 'list': ['[1, 2]', '[0.1, 0.2, 0.3]', '[]', '[62.2, 29.8, 1221]', '[0.1, 1]', '[[0.1, 0.5, 1], [1, 2, 3]]', '[[1, 1], [1, 2]]', '[[1], [2]]', '[[3, 2, 1], [1, 2, 3]]', '[[0.1, 0.5], [1, 2, 3]]', '[[], []]'],
         'table': ['[[0.1, 0.4], [0.2, 0.4]]', '[[0.1, 0.4], [0.2, 0.4], [0.3, 0.3]]', '[]', '[[None, None], [1, 0.3]]', '[[0, 0]]', '[[-1, 0.4]]', '[[0.1]]', '[[2, 0.4], [1, 0.4]]'],
         'bilevel': ['[[1, 10, 5.0, 2.0, 0.4], [2, 8, 9.0, 3.0, 0.4]]', '[]', '[b1]', '[b1, None]', '[[10, 1, 1, 1, 1]]', '[[1, 1, 1, 1, 1]]', '[b1, [1, 2, 3, 4, 5]]'],
         'rate': ['0.05', '0', '-0.1', '1e9', "float('nan')"], 'limit': ['100', '0', '-1', '5000', '1.5', "'x'", 'None'], 'tol': ['0.01', '0', '-1', "float('nan')", '1e-4', 'None'],
         'flag': ['True', 'False', '2', 'None'], 'file': ["'nosuchfile'", "''", 'None', "'data'", "'./data.csv'"], 'obj': OBJECTS,
         'rtype': ["'%s'" % t for t in ('detfn', 'probfn', 'imrate', 'edpim', 'edprate', 'dsedp', 'dsim', 'lossds', 'costedp', 'costim', 'delayedp', 'delayim', 'costrate', 'totalcost', 'collapse', 'deagg', 'dsrate', 'collrate', 'structcost', 'pdf', 'nonsense')],
         'ropt': ['{}', "{'filename': 'r1'}", "{'filename': 'r2', 'append': True}", "{'structcost-type': 'annual'}", "{'structcost-type': 'by-edp'}", "{'structcost-type': 'by-frag'}", "{'structcost-type': 'by-fate'}", "{'structcost-type': 'npv', 'discount-rate': 0.05}", 'None'],
         'cols': ['None', "['mean_x', 'sd_ln_x']", '[]', "['?']", '[0.1, 0.5]', "['median_x', 'sd_x', 'mean_ln_x']"]}
CALLS = ['d = P.detfn(id, type, list)', 'd = P.detfn(id, type, list)', "d = P.probfn(id, 'lognormal', [mt, det], [st, det])", 'd = P.im(id, det)', 'd = P.edp(id, im, prob)', 'd = P.edp(id, im, edp, edp)',
         'd = P.fragfn_user(id, opt, table)', 'd = P.simplelossfn(id, opt, table)', 'd = P.bilevellossfn(id, bilevel)', 'd = P.compgroup(id, edp, frag, loss, loss, n, x, x)', 'd = P.structure(id)',
         'd = P.fragfn_db(id, opt)', 'd = P.fragfn(id)', 'd = P.lossfn(id)',
         'q core.factory2(ft, list)', 'q core.factory3(ft, x, x)', 'q core.factory3(ft, list, list)', 'q core.MakeLogNormalProbabilisticFn(detf, mt, detf, st)', 'q core.MakeIM(detf)', 'q core.MakeEDP(imf, probf, id)', 'q core.MakeCompoundEDP(imf, edpf, edpf, id)',
         'q core.MakeFragilityFn([dist, dist])', 'q core.MakeSimpleLossFn([dist, dist])', 'q core.MakeBiLevelLossFn(bilevel)', 'q core.MakeBiLevelLoss(n, n, x, x, x)', 'q core.MakeCompGroup(edpf, fragf, lossf, lossf, n, x, x, id)', 'q core.MakeLogNormalDist(x, mt, x, st)', 'q core.AddDistributions([dist, dist])', 'q core.AddDistributions(x)', 'q core.MakeStructure()',
         'q core.IM()', 'q core.EDP()', 'q core.LogNormalDist()', 'q core.DeterministicFn()', 'q core.CompGroup()', 'q core.Structure()',
         'q det.ValueAt(x)', 'q prob.Mean(x)', 'q prob.SD(x)', 'q prob.X_at_exceedence(x, p)', 'q probf.P_exceedence(x, x)', 'q im.getlambda(x)', 'q im.pRepair(x)', 'q im.pCollapse(x)', 'q im.pDemolition(x)', 'd im.SetCollapse(dist)', 'd im.SetDemolition(dist)', 'q im.CollapseRate()', 'q im.DemolitionRate()',
         'q edp.Mean(x)', 'q edp.MeanLn(x)', 'q edp.Median(x)', 'q edp.SD(x)', 'q edp.SD_ln(x)', 'q edp.getlambda(x)', 'q edp.X_at_exceedence(x, p)', 'q edp.get_IM()', 'q frag.pExceeded(x)', 'q fragf.pHighest(x)', 'q fragf.n_states()', 'q frag.size()', 'q lossf.n_states()',
         'q cg.E_Cost_EDP(x)', 'q cg.SD_ln_Cost_EDP(x)', 'q cg.E_Cost_IM(x)', 'q cg.SD_ln_Cost_IM(x)', 'q cg.E_cost(n, rate)', 'q cg.E_annual_cost()', 'q cg.lambda_cost(x)', 'q cg.pDS_IM(x)', 'q cg.E_Delay_IM(x)', 'q cg.E_Delay_EDP(x)', 'q cg.SD_ln_Delay_IM(x)', 'q cg.SD_ln_Delay_EDP(x)', 'q cg.Rate()', 'q cg.get_IM()', 'q cg.size()', 'q cgf.get_EDP()',
         'd s1.AddCompGroup(cg)', 'd s2.AddCompGroup(cg)', 'd s1.RemoveCompGroup(cg)', 'd s1.setRebuildCost(dist)', 'd s1.setDemolitionCost(dist)', 'q s1.getRebuildCost()', 'q s2.getDemolitionCost()', 'q s1.Cost(x, flag)', 'q s2.Cost(x, flag)', 'q s1.TotalCost(x)', 'q s2.TotalCost(x)', 'q s1.CostsByFate(x)', 'q s2.DeaggregatedCost(x)', 'q s1.AnnualCost()', 'q s2.AnnualCost()', 'q s1.E_cost(n, rate)', 'q s1.pdf(x)', 'q s2.pdf(x)', 'q s1.ComponentsByEDP()', 'q s2.ComponentsByFragility()', 'q s1.get_IM()', 'd s1.Clear_Cache()',
         'd detf.replace(detf)', 'd probf.replace(probf)', 'd imf.replace(imf)', 'd edpf.replace(edpf)', 'd fragf.replace(fragf)', 'd cgf.replace(cgf)', 'd lossf.replace(lossf)', 'q edpf.AreSame(edpf)', 'q cgf.AreSame(cgf)',
         'd P.Set_Integration_Tolerance(tol)', 'd P.Set_Integration_Eval_Limit(limit)', 'd P.Set_Integration_Search_Limit(limit)', 'd P.Set_Integration_Method(n)', 'd P.IntegrationSettings(tol, limit)', 'q P.Format_Statistics()', 'd P.Reset_Statistics()', 'd P.ClearCaches()', 'd P.LogToStdErr(flag)',
         'd P.ImportProbFn(id, file)', 'd P.ImportIMFn(id, file)', 'd R = P.MakeRecorder(id, rtype, obj, ropt, cols, x)', 'd R.run()', 'd [r.run() for r in P.recorder.all()]', 'q str(obj)', 'd del obj', 'd import gc; gc.collect()']
START = ["d1 = P.detfn('a', 'hyperbolic', [62.2, 29.8, 1221]); d2 = P.detfn('b', 'power law', [0.1, 1.5]); d3 = P.detfn(None, 'power law', [0.5, 0.0])",
         "p1 = P.probfn('a', 'lognormal', [MU.MEDIAN_X, d2], [SD.SD_LN_X, d3]); i1 = P.im('a', d1); i2 = P.im(None, P.detfn(None, 'power law', [1e-4, -2.0]))",
         "e1 = P.edp('a', i1, p1); e2 = P.edp('b', i1, e1, e1); l1 = core.MakeLogNormalDist(1.0, MU.MEAN_X, 0.4, SD.SD_LN_X); l2 = core.MakeLogNormalDist(3.0, MU.MEAN_X, 0.4, SD.SD_LN_X)",
         "f1 = P.fragfn_user('a', {'mu': MU.MEDIAN_X, 'sd': SD.SD_LN_X}, [[0.05, 0.4], [0.1, 0.4]]); lo1 = P.simplelossfn('a', {'mu': MU.MEAN_X, 'sd': SD.SD_LN_X}, [[1.0, 0.4], [3.0, 0.4]]); lo2 = P.bilevellossfn('b', [[1, 10, 5.0, 2.0, 0.4], [2, 8, 9.0, 3.0, 0.4]])",
         "b1 = core.MakeBiLevelLoss(1, 10, 5.0, 2.0, 0.4); c1 = P.compgroup('a', e1, f1, lo1, lo2, 3, 1.0, 1.0); c2 = P.compgroup('b', e2, f1, lo2, None, 1, 1.0, 1.0)",
         "s1 = P.structure('a'); s1.AddCompGroup(c1); s1.AddCompGroup(c2); s1.setRebuildCost(l2); s2 = P.structure('b'); R = P.MakeRecorder('a', 'imrate', i1, {'filename': 'r0'}, None, [0.1])"]


def make(arg):
    seed, n = arg
    import re
    r = random.Random('pyhostile %s' % (seed,))
    steps = [['do', s] for s in START]
    counts = {}
    for _ in range(n):
        c = r.choice(CALLS)
        kind, call = c[0], c[2:]
        wild = r.random() < 0.4
        if kind == 'd' and call.startswith('= '):
            call = r.choice(OBJECTS) + ' ' + call if r.random() < 0.3 else call[2:]
        if call == 'del obj' and r.random() < 0.7:
            call = 'obj = obj'

        def arg(m):
            k = m.group(1)
            if k in ('limit', 'tol', 'file', 'ropt') or not wild or r.random() < 0.6:
                l = KINDS[k]
            else:
                l = r.choice([VALUES, VALUES, OBJECTS, CORE])
            if call.startswith(m.group(1) + '.'):
                l = KINDS[k]
            return r.choice(l)
        code = re.sub(r'(?<![\w.\'])(%s)\b(?!\')' % '|'.join(KINDS), arg, call)
        steps.append(['q' if kind == 'q' else 'do', code])
        k = re.sub(r'\(.*', '', call)
        counts[k] = counts.get(k, 0) + 1
    return steps, counts
