"""C20: histories of redefinitions: whatever refers to an object, however it was obtained, answers as if built afresh from the present definitions."""
import io, math, warnings
warnings.simplefilter('ignore')
from contextlib import redirect_stdout
import model
from model import *
from pbt import *
import record

PRE = 'zz.'
CLASS = record.CLASS


def renamed(w):
    """the same building under other identifiers"""
    v = World()
    p = lambda i: i and PRE + i
    for kind, id in dict.fromkeys(w.order):
        d = copy.deepcopy(getattr(w, kind)[id])
        if kind == 'probfn':
            d = (d[0], p(d[1]), d[2], p(d[3]))
        elif kind == 'im':
            d['fn'] = p(d['fn'])
        elif kind == 'edp':
            d = (d[0],) + tuple(map(p, d[1:]))
        elif kind == 'compgroup':
            for k in ('edp', 'frag', 'cost', 'delay'):
                d[k] = p(d[k])
        elif kind == 'structure':
            d['groups'] = [p(g) for g in d['groups']]
        v.define(kind, p(id), d)
    # definitions in an order in which everything exists when it is referred to
    v.order.sort(key=lambda o: (KINDS.index(o[0]), o[0] == 'edp' and v.edp[o[1]][0] != 'simple'))
    return v


def numbers(x):
    if isinstance(x, (int, float)):
        return [float(x)]
    if hasattr(x, 'get_mean_X'):
        x = pyslat.lognormaldist(x)
    if isinstance(x, pyslat.lognormaldist):
        return [x.mean(), x.sd_ln()]
    return [v for y in x for v in numbers(y)]


def queries(s, w, kind, id, scale, money, strip):
    """a random query of an object: (description, function of the object)"""
    x, y = r5(s.logreal(0.2, 3)), r5(scale * s.logreal(0.2, 4))
    l = [x, r5(s.logreal(0.2, 3))]
    Q = {
        'detfn': [('ValueAt(%g)' % x, lambda o: o.ValueAt(x)), ('function().ValueAt(%g)' % x, lambda o: o.function().ValueAt(x))],
        'probfn': [('Mean SD_ln(%g)' % x, lambda o: (o.Mean(x), o.SD_ln(x))), ('X_at_exceedence(%g, .3)' % x, lambda o: o.X_at_exceedence(x, 0.3)), ('MeanLn, Median, SD(%g)' % x, lambda o: (o.MeanLn(x), o.Median(x), o.SD(x)))],
        'im': [('getlambda(%g)' % x, lambda o: o.getlambda(x)), ('fates(%s)' % l, lambda o: (o.pCollapse(l), o.pDemolition(l), o.pRepair(l))), ('rates of fates', lambda o: (o.CollapseRate(), o.DemolitionRate()))],
        'edp': [('statistics(%g)' % x, lambda o: (o.Mean(x), o.Median(x), o.MeanLn(x), o.SD(x), o.SD_ln(x))), ('statistics(%s)' % l, lambda o: (o.Mean(l), o.SD_ln(l))),
                ('getlambda(%g)' % y, lambda o: o.getlambda(y)), ('P_exceedence(%g, %g)' % (x, y), lambda o: o.function().P_exceedence(x, y))],
        'fragfn': [('pExceeded(%g)' % y, lambda o: o.pExceeded(y)), ('pHighest, size', lambda o: (o.function().pHighest(y), o.size()))],
        'compgroup': [('cost at demand %g' % y, lambda o: (o.E_Cost_EDP(y), o.SD_ln_Cost_EDP(y))), ('delay at demand %g' % y, lambda o: (o.E_Delay_EDP(y), o.SD_ln_Delay_EDP(y))),
                      ('cost at %g' % x, lambda o: (o.E_Cost_IM(x), o.SD_ln_Cost_IM(x))), ('delay at %g' % x, lambda o: (o.E_Delay_IM(x), o.SD_ln_Delay_IM(x))),
                      ('states at %g' % x, lambda o: o.pDS_IM(x)), ('rates of states', lambda o: o.Rate()), ('annual cost', lambda o: o.E_annual_cost()), ('cost over 20 years', lambda o: o.E_cost(20, 0.05)),
                      ('lambda_cost(%g)' % money, lambda o: o.lambda_cost(money)), ('rate of the hazard', lambda o: o.get_IM().getlambda(x)), ('fragility', lambda o: o.fragfn().pExceeded(y))],
        'structure': [('Cost(%g)' % x, lambda o: (o.Cost(x, False), o.Cost(x, True))), ('TotalCost(%g)' % x, lambda o: o.TotalCost(x)), ('CostsByFate(%g)' % x, lambda o: o.CostsByFate(x)),
                      ('DeaggregatedCost(%g)' % x, lambda o: o.DeaggregatedCost(x)), ('AnnualCost', lambda o: o.AnnualCost()), ('cost over 20 years', lambda o: o.E_cost(20, 0.05)), ('pdf(%g)' % x, lambda o: o.pdf(x)),
                      ('rate of the hazard', lambda o: o.get_IM().getlambda(x)), ('fixed costs', lambda o: (o.getRebuildCost(), o.getDemolitionCost())),
                      ('grouping', lambda o: [len(g) * (1 + sum(ord(ch) for c in g for ch in strip(pyslat.compgroup.lookup(c).id()))) for f in (o.ComponentsByEDP, o.ComponentsByFragility)
                                              for g in sorted(f(), key=lambda g: sorted(pyslat.compgroup.lookup(c).id() for c in g))])],
    }[kind]
    return s.pick(Q)


def rescale(s, f):
    k = s.real(0.5, 1.8)
    if f[0] in ('power law', 'hyperbolic'):
        return (f[0], [r5(f[1][0] * k)] + f[1][1:])
    return (f[0], [f[1][0], [r5(y * k) for y in f[1][1]]])


class History:
    def __init__(self, s):
        self.s = s
        self.w = gen_building(s, 4, 3)
        w = self.w
        self.names = Names(s)
        self.names.n = 100
        self.scale = s.pick([1.0])
        self.handles = {}
        s.desc(w.text())
        for kind, id in dict.fromkeys(w.order):
            self.note(kind, id, make(w, kind, id))
        f = next(iter(w.fragfn))
        mk, sk, l = w.fragfn[f]
        self.scale = dist(l[0][0], mk, l[0][1], sk).median()
        c = [w.compgroup[g]['cost'] for g in w.compgroup if w.compgroup[g]['cost']]
        self.money = Ref(w).units(c[0], 1)[0].mean() if c else 1.0

    def note(self, kind, id, o):
        self.handles.setdefault((kind, id), []).append(o)

    def pick(self, kind, id):
        """some way of getting at the object"""
        k = self.s.draw(3)
        return CLASS[kind].lookup(id) if k == 0 else self.s.pick(self.handles[kind, id])

    def again(self, kind, id):
        self.note(kind, id, make(self.w, kind, id))

    def n_of(self, frag):
        return len(self.w.fragfn[frag][2])

    def losses(self, n):
        return [l for l in self.w.lossfn if len(self.w.lossfn[l][-1]) == n]

    def fresh_into(self, kind, gen, id):
        """generate an object, and give it an existing identifier"""
        w = self.w
        before = list(w.order)
        new = gen()
        spec = getattr(w, kind).pop(new)
        w.order = [o for o in w.order if o != (kind, new)]
        for k, i in w.order[len(before):]:
            self.again(k, i)
        getattr(w, kind)[id] = spec

    def step(self):
        s, w = self.s, self.w
        kind = s.pick(['detfn', 'detfn', 'probfn', 'im', 'fates', 'edp', 'fragfn', 'fragfn', 'lossfn', 'lossfn', 'compgroup', 'compgroup', 'structure', 'fixed', 'members'])
        if kind == 'detfn':
            id = s.pick(list(w.detfn))
            if any(d['fn'] == id for d in w.im.values()):
                w.detfn[id] = gen_hazard(s)
            else:
                w.detfn[id] = rescale(s, w.detfn[id])
        elif kind == 'probfn':
            id = s.pick(list(w.probfn))
            self.fresh_into('probfn', lambda: gen_probfn(s, w, self.names, self.scale * 2), id)
        elif kind == 'im':
            id = s.pick(list(w.im))
            old = w.im[id]['fn']
            self.fresh_into('im', lambda: gen_im(s, w, self.names), id)
            if s.boolean():
                w.im[id]['fn'] = old
        elif kind == 'fates':
            id = s.pick(list(w.im))
            which = s.pick(['collapse', 'demolition'])
            d = express(s, LN(math.log(s.real(0.4, 3)), s.real(0.25, 0.6)))
            s.desc('| set %s of %s to %s' % (which, id, short(d)))
            w.im[id][which] = d
            o = self.pick('im', id)
            (o.SetCollapse if which == 'collapse' else o.SetDemolition)(make_dist(d))
            return
        elif kind == 'edp':
            inner = {c for d in w.edp.values() if d[0] != 'simple' for c in d[4:]}
            ids = [i for i in w.edp if i not in inner]
            if not ids:
                return
            id = s.pick(ids)
            w.edp[id] = ('simple', w.edp[id][1], s.pick(list(w.probfn)))
        elif kind == 'fragfn':
            id = s.pick(list(w.fragfn))
            self.fresh_into('fragfn', lambda: gen_frag(s, w, self.names, self.scale * 2, self.n_of(id)), id)
        elif kind == 'lossfn':
            if not w.lossfn:
                return
            id = s.pick(list(w.lossfn))
            self.fresh_into('lossfn', lambda: gen_loss(s, w, self.names, len(w.lossfn[id][-1]), self.money), id)
        elif kind == 'compgroup':
            id = s.pick(list(w.compgroup))
            d = w.compgroup[id]
            k = s.draw(4)
            if k == 0:
                d['edp'] = s.pick(list(w.edp))
            elif k == 1:
                d['frag'] = s.pick([f for f in w.fragfn if self.n_of(f) == self.n_of(d['frag'])])
            elif k == 2:
                d[s.pick(['cost', 'delay'])] = s.pick(self.losses(self.n_of(d['frag'])) or [None])
            else:
                d['count'], d['cost_adj'], d['delay_adj'] = s.integer(0, 30), r5(s.real(0.3, 3)), r5(s.real(0.3, 3))
        elif kind == 'structure':
            id = s.pick(list(w.structure))
            d = w.structure[id]
            gs = [g for g in w.compgroup if s.chance(2, 3)] or [next(iter(w.compgroup))]
            big = self.money * 100
            w.structure[id] = {'groups': gs, 'rebuild': express(s, LN(math.log(big), 0.4)), 'demolition': s.pick([None, express(s, LN(math.log(big), 0.4))])}
        elif kind == 'fixed':
            id = s.pick(list(w.structure))
            which = s.pick(['rebuild', 'demolition'])
            d = express(s, LN(math.log(self.money * s.logreal(10, 1000)), s.real(0.05, 0.8)))
            s.desc('| set %s cost of %s to %s' % (which, id, short(d)))
            w.structure[id][which] = d
            o = self.pick('structure', id)
            (o.setRebuildCost if which == 'rebuild' else o.setDemolitionCost)(make_dist(d))
            return
        else:
            id = s.pick(list(w.structure))
            gs = w.structure[id]['groups']
            out = [g for g in w.compgroup if g not in gs]
            o = self.pick('structure', id)
            if out and (len(gs) < 2 or s.boolean()):
                g = s.pick(out)
                s.desc('| add %s to %s' % (g, id))
                o.AddCompGroup(self.pick('compgroup', g))
                gs.append(g)
            elif len(gs) > 1:
                g = s.pick(gs)
                s.desc('| remove %s from %s' % (g, id))
                o.RemoveCompGroup(self.pick('compgroup', g))
                gs.remove(g)
            return
        s.desc('| %s %s = %s' % (kind, id, short(getattr(w, kind)[id])))
        self.again(kind, id)

    def ask(self):
        s, w = self.s, self.w
        kind = s.pick(['detfn', 'probfn', 'im', 'edp', 'fragfn', 'compgroup', 'compgroup', 'structure', 'structure'])
        id = s.pick(list(getattr(w, kind)))
        q = queries(s, w, kind, id, self.scale, self.money, lambda i: i[len(PRE):] if i.startswith(PRE) else i)
        o = self.pick(kind, id)
        if kind != 'structure':
            check(o.id() == id, lambda: 'identifier %r instead of %r' % (o.id(), id))
        return kind, id, q, numbers(q[1](o))


@prop('c20_redefine', 'random buildings with 2..10 steps, each redefining an object of any kind or changing a structure, asked 1..2 random questions before and after each step, by identifier or through objects obtained '
      'at any earlier time; every answer equals that of a building made afresh from the present definitions; recorders made at the start write the present values; non-trivial: three redefinitions of two kinds')
def redefine(s):
    # the same computation on both sides: what matters is that it is the same, not that it is accurate
    use((M.DIRECTED, 1e-3, 2048, 128))
    h = History(s)
    w = h.w
    recs = []
    for i in range(s.integer(0, 2)):
        r = record.gen_recorder(s, w, False)
        if r:
            s.desc('recorder r%d %s' % (i, record.describe(r)))
            recs.append((r, record.make_recorder('r%d' % i, r)))
    kinds, n = set(), 0
    for i in range(s.integer(2, 10)):
        h.ask()
        h.step()
        n += 1
        asked = [h.ask() for _ in range(s.integer(1, 2))]
        v = renamed(w)
        keep = {k: dict(CLASS[k].defs) for k in KINDS}
        build(v)
        for kind, id, q, got in asked:
            s.desc('? %s %s' % (id, q[0]))
            kinds.add(kind)
            want = numbers(q[1](CLASS[kind].lookup(PRE + id)))
            check(len(got) == len(want) and all(close(a, b, 1e-9, 0) for a, b in zip(got, want)), lambda: '%s of %s after redefinition: %s; of the same definitions made afresh: %s' % (q[0], id, got, want))
        for k in KINDS:
            CLASS[k].defs = keep[k]
    for r, R in recs:
        buf = io.StringIO()
        with redirect_stdout(buf):
            R.run()
        record.compare(buf.getvalue(), record.heading(record.expected(w, r)), 'recorder %s' % record.describe(r))
    if n > 2 and len(kinds) > 1:
        s.nontrivial()


if __name__ == '__main__':
    main(reset)
