"""C20: objects built and queried through pyslat against the reference; redefinition; invalid definitions."""
import math, re, warnings
warnings.simplefilter('ignore')
import model, agree
from model import *
from pbt import *

XS = [0.02, 0.1, 0.3, 0.5, 0.8, 1.0, 1.5, 2.2, 4.0]


def some_x(s, lo=0.02, hi=4.0):
    return r5(s.logreal(lo, hi))


def some_list(s, lo=0.02, hi=4.0):
    l = [some_x(s, lo, hi) for _ in range(s.size(0, 6, 40))]
    if l and s.chance(1, 3):
        l.append(l[0])
    return l


@prop('c20_functions', 'random deterministic functions of the four kinds and lognormal functions with every pair of parameter kinds, at 1..6 points: each value and statistic against the equations; '
      'also the values of distributions of every parameterisation; non-trivial: a lognormal function with a dispersion above 0.01')
def functions(s):
    w = World()
    names = Names(s)
    f = names.new('f')
    w.define('detfn', f, gen_fn_any(s))
    mk, sk = s.pick(['mean_x', 'median_x', 'mean_ln_x']), s.pick(['sd_x', 'sd_ln_x'])
    mu, sd, p = names.new('m'), names.new('s'), names.new('p')
    a = r5(s.logreal(0.05, 20))
    w.define('detfn', mu, ('power law', [a if mk != 'mean_ln_x' else r5(s.real(-1, 1)), r5(s.real(-0.5, 1))]))
    w.define('detfn', sd, s.pick([('power law', [r5(s.real(0.05, 1)), 0.0]), ('linear', [[0.1, 1.0, 3.0], [r5(s.real(0.05, 1)) for _ in range(3)]])]))
    w.define('probfn', p, (mk, mu, sk, sd))
    s.desc(w.text())
    build(w)
    ref = Ref(w)
    F, P = pyslat.detfn.lookup(f), pyslat.probfn.lookup(p)
    check(F.id() == f and P.id() == p and F.function() is not None, 'identifiers')
    for i in range(s.integer(1, 6)):
        x = some_x(s, 0.01, 80)
        s.desc('@%g' % x)
        eq(F.ValueAt(x), ref.fn(f, x), 1e-9, 1e-12 * max(map(abs, w.detfn[f][1][1])) if w.detfn[f][0] == 'linear' else 0, 'value of %s at %g' % (f, x))
        d = ref.prob(p, x)
        sr = 1e-7 / max(d.sigma, 1e-6)
        if not 1e-5 < d.sigma < 5:
            continue
        for n, got, want in (('Mean', P.Mean(x), d.mean()), ('Median', P.Median(x), d.median()), ('MeanLn', P.MeanLn(x), d.mu), ('SD_ln', P.SD_ln(x), d.sigma), ('SD', P.SD(x), d.sd())):
            eq(got, want, 1e-8 + sr, 1e-8 if n == 'MeanLn' else 0, '%s at %g' % (n, x))
        q = s.real(0.001, 0.999)
        eq(P.X_at_exceedence(x, q), d.at_p(q), 1e-7 + sr * 10 * (1 + d.sigma), 0, 'value at probability %g' % q)
        y = d.median() * s.logreal(0.3, 3)
        eq(P.function().P_exceedence(x, y), d.ccdf(y), 1e-6 + sr, 1e-9 + sr, 'probability of exceeding %g' % y)
        if d.sigma > 0.01:
            s.nontrivial()
    spec = gen_dist(s)
    d, o = dist(*spec), pyslat.lognormaldist(make_dist(spec))
    s.desc(short(spec))
    for n, got, want in (('mean', o.mean(), d.mean()), ('median', o.median(), d.median()), ('mean_ln', o.mean_ln(), d.mu), ('sd_ln', o.sd_ln(), d.sigma), ('sd', o.sd(), d.sd())):
        eq(got, want, 1e-7, 1e-9, '%s of the distribution' % n)
    spec2 = gen_dist(s)
    if s.boolean():
        # the same numbers, meaning something else
        spec2 = s.pick([k for k in ((spec[0], mk, spec[2], sk) for mk, sk in (('mean_ln_x', 'sd_ln_x'), ('mean_x', 'sd_ln_x'), ('median_x', 'sd_ln_x'), ('mean_x', 'sd_x')))
                        if k != spec and (k[0] > 0 or k[1] == 'mean_ln_x') and (k[0] < 20 or k[1] != 'mean_ln_x') and (k[2] < 2 or k[3] == 'sd_x') and (k[3] == 'sd_ln_x' or k[2] > 1e-3 * k[0])] or [spec2])
        s.desc(short(spec2))
    e = dist(*spec2)
    eq(pyslat.lognormaldist(make_dist(spec2)).mean(), e.mean(), 1e-7, 0, 'mean of the second distribution')
    eq(pyslat.lognormaldist(make_dist(spec2)).sd(), e.sd(), 1e-6, 0, 'standard deviation of the second distribution')
    t = pyslat.lognormaldist(pyslatcore.AddDistributions([make_dist(spec), make_dist(spec2)]))
    eq(t.mean(), d.mean() + e.mean(), 1e-9, 0, 'mean of a sum')
    eq(t.sd(), math.hypot(d.sd(), e.sd()), 1e-6, 0, 'standard deviation of a sum')


def same_list(s, f, l, what, want):
    got = f(l)
    check(isinstance(got, list) and len(got) == len(l), '%s of a list of %d: %r' % (what, len(l), got))
    for x, y in zip(l, got):
        eq(y, f(x), 0, 0, '%s: list and single value at %g' % (what, x))
        eq(y, want(x), 1e-8, 1e-12, '%s at %g' % (what, x))


@prop('c20_hazard', 'random hazard curves with collapse and demolition given in every parameterisation: rates and fates at single values and lists, the rates of collapse and demolition, against the definitions; '
      'non-trivial: collapse or demolition set and a list of at least two')
def hazard(s):
    w = World()
    im = gen_im(s, w, Names(s))
    s.desc(w.text())
    build(w)
    ref = Ref(w)
    o = pyslat.im.lookup(im)
    l = some_list(s)
    s.desc(l)
    same_list(s, o.getlambda, l, 'rate', lambda x: ref.rate(im, x))
    same_list(s, o.pCollapse, l, 'probability of collapse', lambda x: ref.pC(im, x))
    same_list(s, o.pDemolition, l, 'probability of demolition', lambda x: ref.pD(im, x))
    same_list(s, o.pRepair, l, 'probability of repair', lambda x: ref.pR(im, x))
    agree.value(s, o.CollapseRate, ref.collapse_rate(im), 5e-3, 1e-9 + ref.jump(im, lambda x: ref.pC(im, x)), 'rate of collapse')
    agree.value(s, o.DemolitionRate, ref.demolition_rate(im), 5e-3, 1e-9 + ref.jump(im, lambda x: abs(ref.pD(im, x))), 'rate of demolition')
    if len(l) > 1 and (w.im[im]['collapse'] or w.im[im]['demolition']):
        s.nontrivial()


def demand_value(e, x):
    return (e.Mean(x), e.Median(x), e.MeanLn(x), e.SD_ln(x), e.SD(x))


@prop('c20_demand', 'random simple and compound demands: every statistic at single values and lists, values at probabilities, exceedance rates, against the definitions; non-trivial: a compound demand')
def demand(s):
    w = World()
    names = Names(s)
    im = gen_im(s, w, names)
    ids = []
    vanish = s.boolean()
    for i in range(2):
        p, e = gen_probfn(s, w, names, 1.0, vanish), names.new('edp')
        w.define('edp', e, ('simple', im, p))
        ids.append(e)
    comp = s.boolean()
    id = ids[0]
    if comp:
        id = names.new('edp')
        w.define('edp', id, ('compound', im, w.edp[ids[0]][2], w.edp[ids[1]][2], ids[0], ids[1]))
    s.desc(w.text())
    build(w)
    ref = Ref(w)
    o = pyslat.edp.lookup(id)
    check(o.id() == id and o.get_IM() is pyslat.im.lookup(im), 'accessors')
    l = some_list(s)
    s.desc(l)
    if comp:
        for x in l:
            if abs(ref.prob(w.edp[id][2], x).mean() / ref.prob(w.edp[id][3], x).mean() - 1) < 1e-9:
                raise Discard()
    for n, f, g in (('Mean', o.Mean, LN.mean), ('Median', o.Median, LN.median), ('MeanLn', o.MeanLn, lambda d: d.mu), ('SD_ln', o.SD_ln, lambda d: d.sigma), ('SD', o.SD, LN.sd)):
        same_list(s, f, l, n, lambda x: g(ref.demand(id, x)))
    for x in l[:2]:
        q = s.real(0.01, 0.99)
        eq(o.X_at_exceedence(x, q), ref.demand(id, x).at_p(q), 1e-7, 0, 'value at probability %g' % q)
        y = ref.demand(id, x).median() * s.logreal(0.5, 2)
        eq(o.function().P_exceedence(x, y), ref.demand(id, x).ccdf(y), 1e-7, 1e-12, 'probability of exceeding %g' % y)
    if comp and l:
        s.nontrivial()
    if not vanish:
        return
    ys = [r5(s.logreal(0.1, 3)) for _ in range(s.integer(1, 3))]
    want = [ref.demand_rate(id, y) for y in ys]
    agree.values(s, lambda: o.getlambda(ys), want, 1e-2, [1e-9 + ref.jump(im, lambda x: ref.exceed_im(id, y, x)) for y in ys], 'exceedance rates of %s' % ys)
    for y, r in zip(ys, o.getlambda(ys)):
        eq(o.getlambda(y), r, 0, 0, 'single rate')


def check_group(s, w, ref, id, nx, annual):
    o = pyslat.compgroup.lookup(id)
    g = w.compgroup[id]
    n = len(w.fragfn[g['frag']][2])
    F = pyslat.fragfn.lookup(g['frag'])
    check(o.id() == id and o.size() == n and o.fragfn() is F and o.get_IM() is pyslat.im.lookup(ref.group_im(id)), 'accessors of the group')
    y0 = ref.onsets(g['frag'])[0].median()
    for i in range(nx):
        y = r5(y0 * s.logreal(0.2, 50))
        s.desc('edp=%g' % y)
        for a, b in zip(F.pExceeded(y), ref.exceeded(g['frag'], y)):
            eq(a, b, 1e-7, 1e-12, 'probability of reaching a state at %g' % y)
        for a, b in zip(F.function().pHighest(y), ref.highest(g['frag'], y)):
            eq(a, b, 1e-7, 1e-9, 'probability of a state at %g' % y)
        if sum(ref.highest(g['frag'], y)) > 1 + 1e-12:
            continue
        for what, e, sd in (('cost', o.E_Cost_EDP, o.SD_ln_Cost_EDP), ('delay', o.E_Delay_EDP, o.SD_ln_Delay_EDP)):
            m, q = ref.loss_edp(id, what, y)
            eq(e(y), m, 1e-6, 1e-300, 'mean %s at demand %g' % (what, y))
            if g[what] is None:
                eq(sd(y), nan, 0, 0, 'dispersion of %s at demand %g' % (what, y))
            elif m > 0:
                eq(math.expm1(sd(y) ** 2), q / m ** 2 - 1, 1e-5, 1e-8 * q / m ** 2, 'squared variation of %s at demand %g' % (what, y))
    for i in range(nx):
        x = some_x(s, 0.3, 3)
        s.desc('im=%g' % x)
        d = ref.demand(g['edp'], x)
        for what, e, sd in (('cost', o.E_Cost_IM, o.SD_ln_Cost_IM), ('delay', o.E_Delay_IM, o.SD_ln_Delay_IM)):
            m, q = ref.loss_given(id, what, d)
            full = ref.full_loss(id, what)
            agree.value(s, lambda: e(x), m, 4e-3, 1e-8 * full, 'mean %s at intensity %g' % (what, x))
            # the delay dispersion of several components is the listed finding delay-dispersion-count (C12)
            if m > 1e-5 * full and not (what == 'delay' and g['count'] > 1):
                agree.value(s, lambda: sd(x), of_moments(m, q), 2e-2, 1e-3, 'log dispersion of %s at intensity %g' % (what, x))
        agree.values(s, lambda: o.pDS_IM(x), ref.reach(id, d), 4e-3, 1e-8, 'damage states at intensity %g' % x)
    if annual:
        im = ref.group_im(id)
        n = len(ref.ds_rates(id))
        agree.values(s, o.Rate, ref.ds_rates(id), 1e-2, [1e-8 + ref.jump(im, lambda x: ref.reach_im(id, x)[i]) for i in range(n)], 'damage state rates', True)
        full = ref.full_loss(id)
        if g['cost'] is None or not g['count']:
            eq(o.E_annual_cost(), 0, 0, 0, 'annual cost')
        else:
            a = ref.annual_group(id)
            agree.value(s, o.E_annual_cost, a, 1e-2, 1e-8 * full + ref.jump(im, lambda x: ref.loss_im(id, 'cost', x)[0]), 'annual cost', True)
            a = o.E_annual_cost()
            t, r = s.integer(0, 60), s.pick([0.0, 0.01, 0.06, 0.3])
            eq(o.E_cost(t, r), a * (t if r == 0 else -math.expm1(-r * t) / r), 1e-7, 0, 'cost over %d years at %g' % (t, r))
            c = full * s.logreal(0.02, 0.5)
            agree.value(s, lambda: o.lambda_cost(c), ref.cost_rate(id, c), 2e-2, 1e-7 + ref.jump(im, lambda x: ref.cost_at_least(id, c, x)), 'rate of exceeding cost %g' % c, True)


@prop('c20_group', 'random component groups (counts, adjustment factors, simple and two-level losses, shared functions): damage states, cost and delay per demand and per intensity against the reference; '
      'non-trivial: at least two damage states and a factor or count other than one')
def group(s):
    w = gen_building(s, 2, 5, structure=False)
    s.desc(w.text())
    build(w)
    ref = Ref(w)
    id = s.pick(list(w.compgroup))
    check_group(s, w, ref, id, s.integer(1, 2), False)
    g = w.compgroup[id]
    if len(w.fragfn[g['frag']][2]) > 1 and (g['count'] > 1 or g['cost_adj'] != 1) and g['cost']:
        s.nontrivial()


@prop('c20_group_annual', 'as c20_group, with the annual rates of the damage states, annual and discounted costs and the rate of exceeding a cost; non-trivial: as c20_group')
def group_annual(s):
    w = gen_building(s, 1, 3, compound=False, structure=False)
    for g in w.compgroup.values():
        g['cost_adj'] = g['cost_adj'] or 1.0
    s.desc(w.text())
    build(w)
    ref = Ref(w)
    id = s.pick(list(w.compgroup))
    check_group(s, w, ref, id, 0, True)
    g = w.compgroup[id]
    if len(w.fragfn[g['frag']][2]) > 1 and (g['count'] > 1 or g['cost_adj'] != 1) and g['cost']:
        s.nontrivial()


def moments(d):
    return [d.mean(), d.mean() ** 2 + d.sd() ** 2]


def check_structure(s, w, ref, id, xs, annual=False):
    o = pyslat.structure.lookup(id)
    st = w.structure[id]
    im = ref.struct_im(id)
    full = ref.full_struct(id)
    tol = [1e-6 * full, 1e-6 * full ** 2]
    check(o.get_IM() is pyslat.im.lookup(im), 'hazard curve of the structure')
    for which, got in (('rebuild', o.getRebuildCost()), ('demolition', o.getDemolitionCost())):
        want = ref.fate(id, which)
        eq(got.mean(), want.mean(), 1e-9, 0, 'mean %s cost' % which)
        eq(got.sd_ln(), want.sigma, 1e-7, 1e-9, 'dispersion of the %s cost' % which)
    for x in xs:
        s.desc('im=%g' % x)
        m, v = ref.repair(id, x)
        agree.values(s, lambda: moments(o.Cost(x, False)), [m, v + m * m], 1e-2, tol, 'cost without collapse at %g' % x)
        agree.values(s, lambda: moments(o.Cost(x, True)), list(ref.with_collapse(id, x)), 1e-2, tol, 'cost with collapse at %g' % x)
        agree.values(s, lambda: moments(o.TotalCost(x)), list(ref.total(id, x)), 1e-2, tol, 'total cost at %g' % x)
        c = o.Cost(x, False)
        nc, co = o.DeaggregatedCost(x)
        pc, pd, pr = ref.pC(im, x), ref.pD(im, x), ref.pR(im, x)
        for n, got, p, whole in (('no collapse', pyslat.lognormaldist(nc), 1 - pc, c), ('collapse', pyslat.lognormaldist(co), pc, o.getRebuildCost())):
            eq(got.mean(), p * whole.mean(), 1e-7, 1e-14 * full, 'mean cost for %s' % n)
            if p > 1e-6:
                eq(got.sd_ln(), whole.sd_ln(), 1e-7, 1e-9, 'dispersion of the cost for %s' % n)
        fates = o.CostsByFate(x)
        check(len(fates) == 3, 'three fates')
        for n, got, p, whole in zip(('repair', 'demolition', 'collapse'), fates, (pr, pd, pc), (c, o.getDemolitionCost(), o.getRebuildCost())):
            eq(got.mean(), p * whole.mean(), 1e-7, 1e-14 * full, 'mean cost of %s' % n)
            if p > 1e-6:
                eq(got.sd_ln(), whole.sd_ln(), 1e-7, 1e-9, 'dispersion of the cost of %s' % n)
        h = w.detfn[w.im[im]['fn']]
        if not (h[0] in ('linear', 'loglog') and any(abs(x / k - 1) < 1e-3 for k in h[1][0])):
            eq(o.pdf(x), o.TotalCost(x).mean() * ref.slope(im, x), 1e-3, 1e-12 * full, 'loss density at %g' % x)
    for name, f, key in (('EDP', o.ComponentsByEDP, 'edp'), ('fragility', o.ComponentsByFragility, 'frag')):
        want = {}
        for g in st['groups']:
            want.setdefault(w.compgroup[g][key], []).append(g)
        got = sorted(sorted(pyslat.compgroup.lookup(c).id() for c in l) for l in f())
        check(got == sorted(sorted(l) for l in want.values()), 'groups by %s: %s, expected %s' % (name, got, want))
    if annual:
        m, q = ref.annual(id)
        agree.value(s, lambda: o.AnnualCost().mean(), m, 1e-2, 1e-7 * full + ref.jump(im, lambda x: ref.total(id, x)[0]), 'mean annual cost', True)
        if abs(q - m * m) > 0.05 * q:
            def second():
                d = o.AnnualCost()
                return d.sd() ** 2 + d.mean() ** 2 if q > m * m else d.mean() ** 2 - d.sd() ** 2
            agree.value(s, second, q, 2e-2, 1e-7 * full ** 2 + ref.jump(im, lambda x: ref.total(id, x)[1]), 'second moment of the annual cost', True)
        a = o.AnnualCost().mean()
        t, r = s.integer(0, 60), s.pick([0.0, 0.01, 0.06, 0.3])
        eq(o.E_cost(t, r), a * (t if r == 0 else -math.expm1(-r * t) / r), 1e-7, 0, 'cost over %d years at %g' % (t, r))


@prop('c20_structure', 'random structures (1..4 groups sharing demands and fragility functions, collapse, demolition, rebuild): every cost, breakdown, density and grouping at 1..2 intensities against the reference, '
      'also after removing and adding groups again; non-trivial: two groups and collapse or demolition')
def structure(s):
    w = gen_building(s, 4, 3, nocost=False)
    s.desc(w.text())
    build(w)
    ref = Ref(w)
    id = list(w.structure)[0]
    xs = [some_x(s, 0.2, 3) for _ in range(s.integer(1, 2))]
    check_structure(s, w, ref, id, xs)
    st = w.structure[id]
    im = w.im[ref.struct_im(id)]
    if len(st['groups']) > 1 and (im['collapse'] or im['demolition']):
        s.nontrivial()
        k = s.draw(len(st['groups']))
        g = st['groups'].pop(k)
        s.desc('remove', g)
        pyslat.structure.lookup(id).RemoveCompGroup(pyslat.compgroup.lookup(g))
        check_structure(s, w, ref, id, xs[:1])
        if s.boolean():
            s.desc('add', g)
            st['groups'].append(g)
            pyslat.structure.lookup(id).AddCompGroup(pyslat.compgroup.lookup(g))
            check_structure(s, w, ref, id, xs[:1])


@prop('c20_structure_annual', 'random structures: annual cost and present values against the reference; non-trivial: as c20_structure')
def structure_annual(s):
    w = gen_building(s, 2, 2, compound=False, nocost=False)
    s.desc(w.text())
    build(w)
    ref = Ref(w)
    id = list(w.structure)[0]
    check_structure(s, w, ref, id, [], True)
    im = w.im[ref.struct_im(id)]
    if len(w.structure[id]['groups']) > 1 and (im['collapse'] or im['demolition']):
        s.nontrivial()


METHODS = ['BINARY_SUBDIVISION', 'REVERSE_BINARY_SUBDIVISION', 'LOW_FIRST_REVERSE_BINARY_SUBDIVISION', 'SCATTERED', 'DIRECTED']


@prop('c20_settings', 'random histories of integration settings given through Python, reported back by the statistics; results follow the settings: evaluations stay within the limits, and a result is the same '
      'whatever history led to the same settings; non-trivial: three different settings')
def settings(s):
    w = World()
    im = gen_im(s, w, Names(s), 1)
    s.desc(w.text())
    build(w)
    o = pyslat.im.lookup(im)
    tol, limit, search, method = 1e-3, 2048, 2048, 4
    kinds = set()
    for i in range(s.integer(1, 8)):
        k = s.draw(5)
        kinds.add(k)
        if k == 0:
            tol = r5(s.logreal(1e-7, 1e-1))
            pyslat.Set_Integration_Tolerance(tol)
        elif k == 1:
            limit = s.integer(32, 5000)
            pyslat.Set_Integration_Eval_Limit(s.pick([limit, float(limit), str(limit)]))
        elif k == 2:
            search = s.integer(32, 5000)
            pyslat.Set_Integration_Search_Limit(s.pick([search, float(search), str(search)]))
        elif k == 3:
            method = s.draw(5)
            pyslat.Set_Integration_Method(getattr(pyslat.INTEGRATION_METHOD, METHODS[method]))
        else:
            tol, limit = r5(s.logreal(1e-7, 1e-1)), s.integer(32, 5000)
            pyslat.IntegrationSettings(tol, limit)
        s.desc('set %d: %g %d %d %s' % (k, tol, limit, search, METHODS[method]))
        if s.boolean():
            pyslat.Reset_Statistics()
            a = o.CollapseRate()
            t = pyslat.Format_Statistics()
            check_statistics(t, tol, limit, search, method)
            model.use((getattr(pyslat.INTEGRATION_METHOD, METHODS[method]), tol, limit, search))
            eq(o.CollapseRate(), a, 0, 0, 'rate under the same settings')
    t = pyslat.Format_Statistics()
    check_statistics(t, tol, limit, search, method)
    if len(kinds) > 2:
        s.nontrivial()


def check_statistics(t, tol, limit, search, method):
    numbers = [float(x) for x in re.findall(r'(?<![A-Za-z])[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?', t)]
    for n, v in (('tolerance', tol), ('evaluation limit', limit), ('search limit', search)):
        check(any(close(v, x, 1e-5) for x in numbers), lambda: '%s %g is not among the reported settings: %s' % (n, v, t))


@prop('c20_invalid', 'random invalid definitions (wrong numbers of parameters, tables that are not increasing or of unequal length, unsupported kinds, crossing onsets, empty functions, numbers of states that differ, '
      'groups of another hazard curve): each raises a Python exception, leaves earlier objects as they were and the process working; non-trivial: always')
def invalid(s):
    w = gen_building(s, 2, 3, compound=False, nocost=False)
    build(w)
    ref = Ref(w)
    im = list(w.im)[0]
    haz = w.im[im]['fn']
    cg = list(w.compgroup)[0]
    st = list(w.structure)[0]
    g = w.compgroup[cg]
    ln = {'mu': MU['mean_x'], 'sd': SD['sd_ln_x']}
    n = len(w.fragfn[g['frag']][2])
    lookup = pyslat.fragfn.lookup

    def states(k):
        return pyslat.simplelossfn(None, ln, [[1.0 + i, 0.3] for i in range(k)])

    def group_with(k, delay=False):
        e, f, c = pyslat.edp.lookup(g['edp']), lookup(g['frag']), pyslat.lossfn.lookup(g['cost'])
        G = pyslat.compgroup(None, e, f, c if delay else states(k), states(k) if delay else None, 1, 1.0, 1.0)
        x = ref.onsets(g['frag'])[0].median() * 2
        (G.E_Delay_EDP if delay else G.E_Cost_EDP)(x)
        return G

    def in_structure(k):
        e, f = pyslat.edp.lookup(g['edp']), lookup(g['frag'])
        S = pyslat.structure(None)
        S.AddCompGroup(pyslat.compgroup(None, e, f, states(k), None, 1, 1.0, 1.0))
        (S.Cost(1.0, False) if s.boolean() else S.TotalCost(1.0))

    def foreign():
        other = pyslat.im(None, pyslat.detfn.lookup(haz))
        p = pyslat.probfn.lookup(w.edp[g['edp']][2])
        G = pyslat.compgroup(None, pyslat.edp(None, other, p), lookup(g['frag']), pyslat.lossfn.lookup(g['cost']), None, 1, 1.0, 1.0)
        pyslat.structure.lookup(st).AddCompGroup(G)
    wrong = n + s.pick([1, 2] + ([-1] if n > 1 else []))
    a = r5(s.real(0.1, 2))
    bad = [
        ('function of an unknown kind', lambda: pyslat.detfn(haz, s.pick(['powerlaw', 'quadratic', '', None]), [1.0, 2.0])),
        ('power law with too few parameters', lambda: pyslat.detfn(haz, 'power law', [a])),
        ('hyperbolic function with too few parameters', lambda: pyslat.detfn(haz, 'hyperbolic', [a, 10.0][:s.integer(0, 2)])),
        ('table that is not increasing', lambda: pyslat.detfn(haz, s.pick(['linear', 'loglog']), [[a, 2 * a, s.pick([2 * a, a, 1.5 * a])], [3.0, 2.0, 1.0]])),
        ('table of unequal lists', lambda: pyslat.detfn(haz, s.pick(['linear', 'loglog']), [[a, 2 * a, 3 * a], [3.0, 2.0]])),
        ('table of one point', lambda: pyslat.detfn(haz, s.pick(['linear', 'loglog']), [[a], [3.0]])),
        ('table with a negative abscissa', lambda: pyslat.detfn(haz, s.pick(['loglog']), [[-a, a, 3 * a], [3.0, 2.0, 1.0]])),
        ('parameters that are not numbers', lambda: pyslat.detfn(haz, 'power law', s.pick([['a', 'b'], [None, 1.0], [[1.0], 2.0]]))),
        ('distribution of an unsupported kind', lambda: pyslat.MakeLogNormalDist(a, MU[s.pick(['median_x', 'mean_ln_x'])], 0.4, SD['sd_x'])),
        ('function that is not lognormal', lambda: pyslat.probfn(w.edp[g['edp']][2], 'normal', [MU['mean_x'], pyslat.detfn.lookup(haz)], [SD['sd_x'], pyslat.detfn.lookup(haz)])),
        ('fragility function without states', lambda: pyslat.fragfn_user(g['frag'], ln, [])),
        ('fragility function with onsets out of order', lambda: pyslat.fragfn_user(g['frag'], ln, [[a, 0.3], [a * s.pick([1.0, 0.5]), 0.3]])),
        ('fragility function of an unsupported kind', lambda: pyslat.fragfn_user(g['frag'], {'mu': MU['median_x'], 'sd': SD['sd_x']}, [[a, 0.3]])),
        ('loss function without states', lambda: pyslat.simplelossfn(g['cost'], ln, [])),
        ('two-level loss function without states', lambda: pyslat.bilevellossfn(g['cost'], [])),
        ('loss function with another number of states', lambda: group_with(wrong, s.boolean())),
        ('structure of a group with another number of states', lambda: in_structure(wrong)),
        ('group of another hazard curve', foreign),
        ('demand without a hazard curve', lambda: pyslat.edp(g['edp'], pyslat.im.lookup('nowhere'), pyslat.probfn.lookup(w.edp[g['edp']][2]))),
        ('hazard curve without a function', lambda: pyslat.im(im, pyslat.detfn.lookup('nowhere'))),
        ('group without a fragility function', lambda: pyslat.compgroup(cg, pyslat.edp.lookup(g['edp']), None, None, None, 1, 1.0, 1.0)),
        ('recorder without points', lambda: pyslat.MakeRecorder('r', s.pick(['imrate', 'detfn', 'totalcost', 'dsim']), pyslat.structure.lookup(st), {}, None, None)),
        ('recorder of a state that does not exist', lambda: pyslat.MakeRecorder('r', s.pick(['dsedp', 'dsim']), pyslat.compgroup.lookup(cg), {}, [s.pick([0, -1, n + 1, 1.5, 'DS1'])], [1.0])),
    ]
    s.nontrivial()
    for i in range(s.integer(1, 4)):
        what, f = s.pick(bad)
        s.desc(what)
        s.label(what)
        try:
            f()
        except Fail:
            raise
        except Exception:
            pass
        else:
            fail('accepted: ' + what)
    s.desc(w.text())
    x = some_x(s, 0.3, 2)
    eq(pyslat.im.lookup(im).getlambda(x), ref.rate(im, x), 1e-9, 0, 'hazard curve afterwards')
    eq(pyslat.edp.lookup(g['edp']).Mean(x), ref.demand(g['edp'], x).mean(), 1e-8, 0, 'demand afterwards')
    y = ref.onsets(g['frag'])[0].median() * 2
    eq(pyslat.compgroup.lookup(cg).E_Cost_EDP(y), ref.loss_edp(cg, 'cost', y)[0], 1e-6, 1e-300, 'cost afterwards')
    check(len(pyslat.structure.lookup(st).ComponentsByEDP()) == len({w.compgroup[k]['edp'] for k in w.structure[st]['groups']}), 'groups of the structure afterwards')


if __name__ == '__main__':
    main(reset)
