#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})

p('C01', 'Every parameterisation of a lognormal describes the same distribution',
  'A lognormal distribution built from any supported pair of parameters (mean-of-log, mean or median with log dispersion; mean with '
  'standard deviation) reports a mean, median, mean-of-log, standard deviation and log dispersion that satisfy the closed-form lognormal '
  'identities and reproduce the parameters it was given, and rebuilding it from any other reported pair gives the same distribution. '
  'A distribution with mean zero is certainly zero (mean, median and standard deviation zero), and a distribution for which no parameters '
  'were given reports every parameter as not-a-number.',
  ['inputs'], 'all positive means/medians, all non-negative dispersions, all four factories, and the zero mean',
  'The unit tests compare a few fixed parameter sets; an algebra slip that vanishes for those (e.g. near dispersion 0.5 or mean 1) passes.',
  ['src/lognormaldist.cpp', 'src/lognormaldist.h'],
  [('factories', 'src/lognormaldist.cpp LogNormalDist_from_*'), ('getters', 'src/lognormaldist.cpp get_*')])

p('C02', 'Lognormal probabilities and quantiles obey the lognormal law',
  'For every defined lognormal distribution the probabilities of being at least x and at most x equal the lognormal law, lie in [0,1], '
  'sum to one and are monotone in x for every x >= 0 including the far tails, and the value at probability p is the inverse of the at-most '
  'probability and is monotone in p. An undefined distribution yields not-a-number rather than a probability.',
  ['inputs'], 'all distributions with positive dispersion, all x >= 0, all p in (0,1)',
  'Unit tests check a handful of x for one or two distributions; monotonicity, complement and inverse are relations over all x.',
  ['src/lognormaldist.cpp'],
  [('p_at_least/p_at_most/x_at_p', 'src/lognormaldist.cpp')])

p('C03', 'Adding, mixing and scaling lognormals preserves mean and variance',
  'The sum of any list of independent lognormals has the sum of their means and the sum of their variances; a mixture with probabilities '
  'totalling at most one has exactly the mean and variance of that mixture (missing probability counts as zero loss); neither depends on the '
  'order of the list, and a mixture whose list of probabilities has a different length is rejected. '
  'Scaling by a probability, component count or adjustment factor multiplies the mean (and so the standard deviation) by it and keeps the log '
  'dispersion.',
  ['inputs'], 'all lists (any length, including empty and zero distributions), all weights, all non-negative factors',
  'Unit tests use two or three fixed distributions; moment preservation must hold for all lists and orders.',
  ['src/lognormaldist.cpp'],
  [('AddDistributions', 'src/lognormaldist.cpp'), ('AddWeightedDistributions', 'src/lognormaldist.cpp'),
   ('ApplyAdjustmentFactor', 'src/lognormaldist.cpp')])

p('C04', 'Deterministic functions evaluate their defining equations everywhere',
  'A power-law function returns a*x^b; a hyperbolic function returns v*exp(alpha/ln(x/x_asy)) below its asymptote and zero at or beyond it; '
  'an interpolated function passes through each of its data points, is piecewise linear (or linear in log-log) between neighbouring points and '
  'holds the end values outside the data. '
  'The reported derivative agrees with the analytic derivative wherever the function is smooth, and evaluation in any order or from any number '
  'of threads at once returns the same values.',
  ['inputs', 'schedules'], 'all parameters and tables with increasing abscissae, all x > 0, any evaluation order, concurrent evaluation',
  'Unit tests check a few x on fixed curves; interpolation-segment boundaries, lookup order and concurrent lookups are not reached.',
  ['src/functions.cpp', 'src/functions.h'],
  [('Evaluate/ValueAt', 'src/functions.cpp'), ('DerivativeAt', 'src/functions.cpp'), ('interpolation accelerator', 'src/functions.cpp')])

p('C05', 'A lognormal function is the lognormal law with parameters taken at x',
  'For every way of giving the location (mean, median, mean of log) and the spread (standard deviation, log dispersion) as functions of x, the '
  'mean, median, mean-of-log, standard deviation and log dispersion reported at x reproduce the given functions and satisfy the lognormal identities. '
  'The probability of exceeding y at x and the value at a given probability at x are those of that lognormal distribution, and invalid '
  'parameter kinds are rejected at construction.',
  ['inputs'], 'all six location/spread kinds, all underlying deterministic functions, all x, y, p',
  'Unit tests cover a few kind combinations at fixed points.',
  ['src/functions.cpp', 'src/functions.h'],
  [('LogNormalFn', 'src/functions.cpp LogNormalFn::LogNormalFn')])

p('C06', 'Numerical integration is accurate, bounded and reports its failures',
  'For every search method, integrating a smooth, single-peaked non-negative function of moderate width over [0, infinity) reports success, with a value that '
  'agrees with the exact integral to about the configured tolerance (apart from isolated false convergences inherent in adaptive Simpson integration), and a '
  'tighter tolerance gives a better answer for more evaluations; the result scales linearly with the integrand, and is zero for an identically zero one. If any value '
  'the integration uses is not-a-number, or the integrand cannot be resolved within the evaluation limit, the result is unsuccessful with a not-a-number value, never a '
  'number. The number of integrand evaluations is bounded by the configured search and evaluation limits, invalid settings are ignored, resetting '
  'restores the documented defaults, and the statistics count every call, its outcome and its evaluations.',
  ['inputs', 'configurations'], 'integrand families x the five methods x tolerances x limits',
  'Unit tests integrate three functions; which method/limit/tolerance combination fails silently is a property of the whole grid.',
  ['src/maq.cpp', 'src/maq.h'],
  [('MAQ', 'src/maq.cpp MAQ'), ('search', 'src/maq.cpp directed_search, binary_subdivision, ...'),
   ('settings', 'src/maq.cpp IntegrationSettings'), ('statistics', 'src/maq.cpp get_statistics')])

p('C07', 'Damage-state probabilities form a consistent distribution',
  'For every accepted fragility function and demand level, the probability of reaching each damage state is that of the state\'s '
  'lognormal onset, and the probability of each state being the highest reached is the (non-negative) difference between its and the next '
  'state\'s probability, the last state keeping its own. When the reach-probabilities are ordered the highest-state probabilities sum to '
  'the probability of reaching the first state, so with "no damage" they sum to one. '
  'A fragility function with no states, or with onsets not strictly increasing in mean-of-log, is rejected.',
  ['inputs'], 'all lists of onset distributions, all demand levels >= 0',
  'Unit tests evaluate one fragility function at a few levels.',
  ['src/fragility.cpp', 'src/fragility.h'],
  [('constructor validation', 'src/fragility.cpp'), ('pExceeded/pHighest', 'src/fragility.cpp')])

p('C08', 'Loss functions give the probability-weighted, quantity-scaled repair loss',
  'For every loss function, damage-state probabilities, component count and adjustment factor, the expected loss is '
  'factor x count x the sum over states of probability times that state\'s unit mean, and the log dispersion is that of the mixture of the state '
  'losses. A two-level loss uses its low-count unit mean up to the lower quantity, its high-count mean from the upper quantity, and '
  'linear interpolation between, with the stated dispersion. '
  'Empty loss functions, and probabilities whose number differs from the number of states, are rejected.',
  ['inputs', 'histories'], 'all state lists, probabilities, counts, factors, and any order of queries at different counts',
  'Unit tests use fixed tables; interpolation limits, repeated queries at other counts and mismatched sizes vary over inputs.',
  ['src/loss_functions.cpp', 'src/loss_functions.h'],
  [('SimpleLossFn/BiLevelLossFn::CalculateUnadjustedLoss', 'src/loss_functions.cpp'), ('LossFn::CalculateLoss', 'src/loss_functions.cpp')])

p('C09', 'Hazard, collapse and demolition probabilities and rates are consistent',
  'For every hazard curve, the rate and its derivative are those of the curve it was built from; at every intensity the probabilities of repair, '
  'demolition and collapse sum to one, collapse being the collapse distribution\'s probability and demolition the demolition distribution\'s '
  'probability less that of collapse, each zero when not specified. '
  'The annual rates of collapse and demolition are the integrals of those probabilities against the slope of the hazard curve, and list queries '
  'return exactly the point queries in order.',
  ['inputs', 'histories'], 'all hazard functions, collapse/demolition distributions set in any order, all intensities',
  'Unit tests use one hazard curve and one collapse setting.',
  ['src/relationships.h', 'src/relationships.cpp'],
  [('IM', 'src/relationships.cpp IM::*'), ('CollapseRate/DemolitionRate', 'src/relationships.cpp')])

p('C10', 'Demand exceedance rates equal the hazard convolution',
  'For every hazard curve, demand model, collapse/demolition setting and demand level y, the annual rate of exceeding y equals the integral over intensity of '
  '(P(demand > y | intensity) x P(repair | intensity) + 1 - P(repair | intensity)) against the slope of the hazard curve, within the integration '
  'tolerance; it never increases with y. '
  'Conditional queries (probability, value at probability, mean, median, mean of log, standard deviations) are those of the demand model, and list '
  'and parallel queries equal the point queries in order.',
  ['inputs'], 'all hazard/demand function pairs, fates and demand levels',
  'The tests compare a few numbers for one hazard curve; an error confined to collapse/demolition handling or to a region of y is not sampled.',
  ['src/relationships.cpp', 'src/relationships.h'],
  [('EDP::calc_lambda', 'src/relationships.cpp'), ('EDP::Mean...', 'src/relationships.cpp')])

p('C11', 'A compound demand follows whichever model has the larger mean',
  'A demand defined by two models answers every query at an intensity (exceedance probability, value at probability, mean, median, mean of '
  'log, standard deviation, log dispersion) from the same one of the two models: the one with the larger mean at that intensity. '
  'Its exceedance rate is the hazard integral of that choice, and replacing either model afterwards changes exactly that model.',
  ['inputs', 'histories'], 'all pairs of models (crossing or not), all intensities, replacement of either model',
  'One unit test with one pair of models; crossing points and replacement of the second model are not exercised.',
  ['src/relationships.cpp', 'src/relationships.h'],
  [('CompoundEDP::WhichToUse', 'src/relationships.cpp')])

p('C12', 'Component-group losses per demand and intensity equal their integrals',
  'For every component group, the repair cost and repair time given a demand are the loss functions evaluated at the damage-state '
  'probabilities, count and adjustment factors; given an intensity, the mean, log dispersion and damage-state '
  'probabilities are those of the conditional losses integrated over the demand distribution at that intensity, within the integration tolerance. '
  'A missing cost or delay function gives undefined losses per demand, and a group with a count of zero gives zero.',
  ['inputs'], 'all fragility/loss/demand combinations, counts, adjustment factors, intensities and demands',
  'The tests compare a few numbers for one component group.',
  ['src/comp_group.cpp', 'src/comp_group.h'],
  [('cost_EDP_dist/delay_EDP_dist', 'src/comp_group.cpp constructor'), ('E_cost_IM_calc, SD_ln_cost_IM_calc, E_delay_IM_calc, '
   'SD_ln_delay_IM_calc, pDS_IM_calc', 'src/comp_group.cpp')])

p('C13', 'Annual component-group results equal the hazard integral of conditional results',
  'For every component group the expected annual cost, the annual rate of exceeding a given cost, and the annual rate of reaching each damage state are the '
  'integrals over intensity of the corresponding conditional quantity against the slope of the hazard curve, within the integration tolerance. '
  'The rate of exceeding a cost never increases with the cost, damage-state rates lie between zero and the total hazard rate, and results '
  'are proportional to the count and the adjustment factor where the conditional quantity is.',
  ['inputs'], 'all component groups, hazard curves and costs',
  'The tests check one component group; proportionality and ordering are relations over all of them.',
  ['src/comp_group.cpp'],
  [('E_annual_cost_calc, lambda_cost_calc, calc_Rate', 'src/comp_group.cpp')])

p('C14', 'A structure\'s cost at an intensity is the fate-weighted total of its parts',
  'At every intensity the repair cost of a structure is the sum of independent component-group costs (means and variances add, in any order of '
  'adding groups), and the total cost has the mean and variance of the mixture of repair, demolition and collapse costs weighted by the '
  'probabilities of those fates. '
  'The fate-by-fate and collapse/no-collapse breakdowns are the individual costs weighted by the fates\' probabilities, so '
  'the fate means add up to the total mean. All groups of a structure share one hazard curve: adding a group based on another is rejected and leaves the '
  'structure unchanged.',
  ['inputs'], 'all sets of component groups, rebuild/demolition costs, collapse/demolition settings, intensities',
  'The tests build one structure; conservation across fates is never asserted over a range of settings.',
  ['src/structure.cpp', 'src/structure.h'],
  [('CostNC, Cost, TotalCost, CostsByFate, DeaggregatedCost, AddCompGroup', 'src/structure.cpp')])

p('C15', 'Annual and discounted losses follow from the cost curve',
  'The expected annual cost of a structure is the integral over intensity of its mean total cost against the slope of the hazard curve, and its '
  'standard deviation the matching second-moment integral, within the integration tolerance; the loss-rate density integrates to the annual cost. '
  'The present value of losses over t years at discount rate r is (1 - e^(-rt))/r times the expected annual cost, so it is increasing in t, '
  'approaches t times the annual cost as r goes to zero, and is the same whether years are queried singly or as a list.',
  ['inputs'], 'all structures, years and discount rates',
  'The tests compare single numbers for one structure.',
  ['src/structure.cpp'],
  [('calc_AnnualCost, E_cost, pdf', 'src/structure.cpp')])

p('C16', 'Cached results are always those of the current model',
  'After any history of queries interleaved with changes — replacing any function, hazard curve, demand, fragility or loss function, component group, '
  'setting collapse, demolition, rebuild or demolition costs, adding or removing groups, clearing caches, or changing integration settings — '
  'every query returns what a freshly built model with the same current definition and settings would return. '
  'Objects may be destroyed in any order without affecting those that remain.',
  ['histories'], 'all sequences of build, change, query and destroy operations on a model',
  'Tests replace one object after one query; staleness needs a particular query-change-query sequence across levels.',
  ['src/caching.h', 'src/replaceable.h', 'src/relationships.cpp', 'src/comp_group.cpp', 'src/structure.cpp', 'src/structure.h', 'src/maq.cpp'],
  [('callbacks', 'src/relationships.cpp, src/comp_group.cpp, src/structure.cpp'), ('ClearCache', 'src/caching.h')],
  state=[('cache', 'memoised results per object', 'src/caching.h')])

p('C17', 'Memoised functions evaluate once, never serve stale or foreign values',
  'A memoised function or value returns, for every argument and any interleaving of concurrent callers, the result of its underlying calculation for that '
  'argument; it performs the calculation once until cleared (always, when memoising is disabled), and not-a-number arguments are never memoised. '
  'Once a clear has completed, later calls never return anything computed before it, even if a calculation was in progress. '
  'If the calculation throws, the caller sees the exception and later or waiting callers can still use the function.',
  ['schedules', 'histories', 'fault_sequences'], 'all interleavings of calls, clears, slow calculations and exceptions over any set of arguments',
  'The tests run one parallel loop over a fast function; clears or exceptions during a calculation are not scheduled.',
  ['src/caching.h', 'src/caching.cpp'],
  [('CachedFunction, CachedValue', 'src/caching.h'), ('Clear_Caches registry', 'src/caching.cpp')])

p('C18', 'Change and replacement notifications reach every client exactly once',
  'After any history of subscribing, unsubscribing, changing and replacing, announcing a change invokes each currently subscribed client\'s change '
  'callback exactly once and no other; replacing an object invokes each client\'s replacement callback once with the new object. '
  'After a replacement those clients are subscribed to the new object, alongside the clients it already had, and no longer to the old; '
  'subscription identifiers stay unique on an object, so unsubscribing removes exactly the intended client.',
  ['histories'], 'all sequences of subscribe/unsubscribe/notify/replace over a population of objects and clients',
  'The tests do one replace and one notify.',
  ['src/replaceable.h'],
  [('Replaceable', 'src/replaceable.h')])

p('C19', 'Results do not depend on the number of threads or on concurrent use',
  'Every result — point, list, damage-state, component-group and structure queries, including nested parallel calculations and their diagnostic context '
  '— is the same for any number of threads and any interleaving of concurrent queries on a shared model, and such queries neither crash, '
  'deadlock nor raise.',
  ['schedules', 'configurations'], 'thread counts 1..16, nested parallelism on or off, concurrent queries from several threads in any order',
  'The tests run with one thread configuration.',
  ['src/context.cpp', 'src/caching.h', 'src/structure.cpp', 'src/comp_group.cpp', 'src/relationships.cpp', 'src/functions.cpp', 'src/maq.cpp'],
  [('omp regions', 'src/*.cpp'), ('Context per-thread stacks', 'src/context.cpp')])

p('C20', 'The Python interface computes exactly what the library computes',
  'Every object built and queried through the Python interface — functions, hazard curves, demands (simple and compound), fragility and loss functions, component '
  'groups, structures, lognormal distributions, integration settings — reports the same values as the defining equations, for single '
  'values and for lists, with every option (parameter kinds, counts, adjustment factors, collapse, demolition, rebuild, discounting) taking '
  'effect as named. Redefining an object under the same name replaces it everywhere it is used.',
  ['inputs', 'histories'], 'all object definitions and queries expressible through the module',
  'One example script is compared to stored output; options it does not use are never exercised.',
  ['src/pyslat.py', 'src/pyslatcore.cpp', 'src/pyslatcore.h', 'src/pyslatcore.i'],
  [('wrappers', 'src/pyslatcore.cpp'), ('classes', 'src/pyslat.py')])

p('C21', 'Scripts in the SLAT language mean what the language reference says',
  'Every well-formed script in the SLAT language builds the model its commands describe — functions, intensity measures, demands, fragility and '
  'loss functions, component groups, structures, collapse/demolition/rebuild settings, integration settings, variables and Python expressions as '
  'arguments — so results recorded from the script equal those of the same model evaluated from its defining equations. '
  'Malformed scripts, and references to undefined objects, never silently produce output for something else.',
  ['programs'], 'all scripts generated from the grammar over models of bounded size',
  'One example script is compared to stored output.',
  ['src/SlatInterpreter.py', 'src/slatParser.g4', 'src/slatLexer.g4', 'src/pyslat.py'],
  [('listener', 'src/SlatInterpreter.py'), ('grammar', 'src/slatParser.g4, src/slatLexer.g4')])

p('C22', 'Recorders write complete, correctly labelled tables of the model\'s values',
  'Every recorder writes a table with one row per requested point in the requested order and one column per requested (or default) column, '
  'headed by their names, holding the values of the named functions at that point to the printed precision. '
  'Requests given as ranges, counts, lists or expressions cover the points they describe, including both ends; results go to the named file '
  '(appended or overwritten as asked) or to standard output, and are complete once the recorder has run.',
  ['inputs', 'configurations'], 'all recorder types x column sets x ways of specifying points x output modes',
  'The example compares the files of one script, with default columns for most.',
  ['src/pyslat.py', 'src/SlatInterpreter.py'],
  [('recorder classes', 'src/pyslat.py'), ('frange/linrange/logrange', 'src/pyslat.py')])

p('C23', 'Imported data files become the functions their numbers define',
  'Importing a hazard table yields a curve that passes through every row of the file; importing a demand table yields a lognormal demand '
  'whose median and log dispersion at each row are those of the row\'s positive samples, starting from zero, with linear interpolation between rows. '
  'Header rows are skipped, and the way numbers are spaced or ordered within a row does not matter.',
  ['inputs'], 'all well-formed tables',
  'Only the example\'s data files are read, and by the example script.',
  ['src/pyslat.py'],
  [('ImportIMFn, ImportProbFn', 'src/pyslat.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
