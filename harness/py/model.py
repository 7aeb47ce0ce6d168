"""A plain description of a building (World), a reference for every quantity computed from it (Ref), and builders.
Definitions refer to each other by identifier and are resolved when a value is asked for."""
import copy, math, os, shutil, sys, tempfile
from statistics import NormalDist
import numpy as np

inf, nan = math.inf, math.nan
erfc = math.erfc
INV = NormalDist().inv_cdf


def phi(z):
    return 0.5 * erfc(-z / math.sqrt(2))


_Z = np.linspace(-40, 12, 52001)
_PHI = np.array([phi(z) for z in _Z])


def vphi(z):
    return np.interp(z, _Z, _PHI)


class LN:
    """lognormal: mean and standard deviation of the log; mu = -inf is the constant zero, nan is undefined"""
    __slots__ = ('mu', 'sigma')

    def __init__(self, mu, sigma):
        self.mu, self.sigma = mu, sigma

    def mean(self):
        return 0.0 if self.mu == -inf else math.exp(self.mu + self.sigma ** 2 / 2)

    def median(self):
        return 0.0 if self.mu == -inf else math.exp(self.mu)

    def sd(self):
        return 0.0 if self.mu == -inf else self.mean() * math.sqrt(math.expm1(self.sigma ** 2))

    def m2(self):
        return 0.0 if self.mu == -inf else math.exp(2 * self.mu + 2 * self.sigma ** 2)

    def cdf(self, x):
        if math.isnan(self.mu):
            return nan
        if x <= 0:
            return 0.0
        if self.mu == -inf:
            return 1.0
        return phi((math.log(x) - self.mu) / self.sigma)

    def ccdf(self, x):
        if x <= 0:
            return 1.0
        if self.mu == -inf:
            return 0.0
        return phi(-(math.log(x) - self.mu) / self.sigma)

    def at_p(self, p):
        return 0.0 if self.mu == -inf else math.exp(self.mu + self.sigma * INV(p))


def dist(mu, mk, sd, sk):
    if sk == 'sd_x':
        if mk == 'mean_x':
            if mu == 0:
                return LN(-inf, 0)
            s2 = math.log1p((sd / mu) ** 2)
            return LN(math.log(mu) - s2 / 2, math.sqrt(s2))
        med = mu if mk == 'median_x' else math.exp(mu)
        w = (1 + math.sqrt(1 + 4 * (sd / med) ** 2)) / 2
        return LN(math.log(med), math.sqrt(math.log(w)))
    if mk == 'mean_ln_x':
        return LN(mu, sd)
    if mu == 0:
        return LN(-inf, sd)
    return LN(math.log(mu) - sd * sd / 2 if mk == 'mean_x' else math.log(mu), sd)


def of_moments(mean, m2):
    """log dispersion of a variable with this mean and second moment"""
    return math.sqrt(math.log(max(1.0, m2 / mean ** 2))) if mean > 1e-140 else 0.0


KINDS = ['detfn', 'probfn', 'im', 'edp', 'fragfn', 'lossfn', 'compgroup', 'structure']


class World:
    def __init__(self):
        for k in KINDS:
            setattr(self, k, {})
        self.order = []

    def define(self, kind, id, spec):
        getattr(self, kind)[id] = spec
        self.order.append((kind, id))

    def copy(self):
        return copy.deepcopy(self)

    def text(self):
        return '; '.join('%s %s = %s' % (k, i, short(getattr(self, k)[i])) for k, i in dict.fromkeys(self.order))


def short(x):
    if isinstance(x, float):
        return '%.6g' % x
    if isinstance(x, (list, tuple)):
        return '(' + ' '.join(map(short, x)) + ')'
    if isinstance(x, dict):
        return '{' + ', '.join('%s: %s' % (k, short(v)) for k, v in x.items()) + '}'
    return str(x)


class Ref:
    def __init__(self, w):
        self.w = w

    # ---- functions
    def fn(self, id, x):
        return fn_value(self.w.detfn[id], x)

    def prob(self, id, x):
        mk, mu, sk, sd = self.w.probfn[id]
        return dist(self.fn(mu, x), mk, self.fn(sd, x), sk)

    # ---- hazard
    def rate(self, im, x):
        return self.fn(self.w.im[im]['fn'], x)

    def pC(self, im, x):
        c = self.w.im[im]['collapse']
        return dist(*c).cdf(x) if c else 0.0

    def pD(self, im, x):
        d = self.w.im[im]['demolition']
        return dist(*d).cdf(x) - self.pC(im, x) if d else 0.0

    def pR(self, im, x):
        return 1 - (self.pC(im, x) + self.pD(im, x))

    def grid(self, im, n=1500):
        """intensities and weights for integrals against the slope of the hazard curve"""
        f = self.w.detfn[self.w.im[im]['fn']]
        if f[0] in ('linear', 'loglog'):
            xs = f[1][0]
            pts = []
            for a, b in zip(xs, xs[1:]):
                k = max(20, n // len(xs))
                pts += [a * (b / a) ** (i / k) if a > 0 else a + (b - a) * i / k for i in range(k)]
            pts.append(xs[-1])
        else:
            hi = f[1][1] if f[0] == 'hyperbolic' else 1e5
            lo = 1e-7
            pts = [lo * (hi / lo) ** (i / (2 * n)) for i in range(2 * n + 1)]
        lam = [fn_value(f, x) for x in pts]
        mids = [math.sqrt(a * b) if a > 0 else (a + b) / 2 for a, b in zip(pts, pts[1:])]
        return mids, [abs(a - b) for a, b in zip(lam, lam[1:])]

    def integral(self, im, g, n=1500):
        xs, ws = self.grid(im, n)
        return sum(g(x) * w for x, w in zip(xs, ws) if w > 0)

    def jump(self, im, g):
        """allowance for a hazard table that stops where g still matters: the adaptive integration may misplace that jump slightly"""
        f = self.w.detfn[self.w.im[im]['fn']]
        if f[0] not in ('linear', 'loglog'):
            return 0.0
        x = f[1][0][-1]
        return 0.04 * g(x) * self.slope(im, x * (1 - 1e-4)) * x

    def slope(self, im, x):
        f = self.w.detfn[self.w.im[im]['fn']]
        h = 1e-5 * x
        return abs(fn_value(f, x + h) - fn_value(f, x - h)) / (2 * h)

    def collapse_rate(self, im):
        return self.integral(im, lambda x: self.pC(im, x)) if self.w.im[im]['collapse'] else 0.0

    def demolition_rate(self, im):
        return self.integral(im, lambda x: self.pD(im, x)) if self.w.im[im]['demolition'] else 0.0

    # ---- demand
    def demand(self, edp, x):
        e = self.w.edp[edp]
        a = self.prob(e[2], x)
        if e[0] == 'simple':
            return a
        b = self.prob(e[3], x)
        return a if a.mean() > b.mean() else b

    def im_of(self, edp):
        return self.w.edp[edp][1]

    def demand_rate(self, edp, y):
        im = self.im_of(edp)

        return self.integral(im, lambda x: self.exceed_im(edp, y, x))

    def exceed_im(self, edp, y, x):
        r = self.pR(self.im_of(edp), x)
        return self.demand(edp, x).ccdf(y) * r + (1 - r)

    # ---- fragility and loss
    def onsets(self, frag):
        mk, sk, l = self.w.fragfn[frag]
        return [dist(m, mk, s, sk) for m, s in l]

    def exceeded(self, frag, y):
        return [d.cdf(y) for d in self.onsets(frag)]

    def highest(self, frag, y):
        p = self.exceeded(frag, y)
        return [max(0.0, a - b) for a, b in zip(p, p[1:])] + [p[-1]]

    def units(self, loss, count):
        l = self.w.lossfn[loss]
        if l[0] == 'simple':
            return [dist(m, l[1], s, l[2]) for m, s in l[3]]
        r = []
        for n0, n1, c0, c1, d in l[1]:
            m = c0 if count <= n0 else c1 if count >= n1 else c0 + (c1 - c0) * (count - n0) / (n1 - n0)
            r.append(dist(m, 'mean_x', d, 'sd_ln_x'))
        return r

    # ---- component groups: 'cost' or 'delay'
    def loss_edp(self, group, what, y):
        """mean and second moment given the demand, or (nan, nan) without a loss function"""
        g = self.w.compgroup[group]
        if g[what] is None:
            return nan, nan
        k = g['count'] * (g['cost_adj'] if what == 'cost' else g['delay_adj'])
        p = self.highest(g['frag'], y)
        u = self.units(g[what], g['count'])
        return k * sum(a * b.mean() for a, b in zip(p, u)), k * k * sum(a * b.m2() for a, b in zip(p, u))

    def loss_given(self, group, what, d):
        """the same given the distribution of the demand"""
        g = self.w.compgroup[group]
        if g[what] is None or not g['count'] or d.mu == -inf:
            return 0.0, 0.0
        k = g['count'] * (g['cost_adj'] if what == 'cost' else g['delay_adj'])
        u = self.units(g[what], g['count'])
        z = np.linspace(-9, 9, 361)
        wt = np.exp(-z * z / 2) / math.sqrt(2 * math.pi) * (z[1] - z[0])
        ly = d.mu + d.sigma * z
        pe = [vphi((ly - o.mu) / o.sigma) for o in self.onsets(g['frag'])]
        ph = [np.maximum(0, a - b) for a, b in zip(pe, pe[1:])] + [pe[-1]]
        m = sum(float((wt * a).sum()) * b.mean() for a, b in zip(ph, u))
        q = sum(float((wt * a).sum()) * b.m2() for a, b in zip(ph, u))
        return k * m, k * k * q

    def loss_im(self, group, what, x):
        return self.loss_given(group, what, self.demand(self.w.compgroup[group]['edp'], x))

    def reach(self, group, d):
        if d.mu == -inf:
            return [0.0 for _ in self.onsets(self.w.compgroup[group]['frag'])]
        return [phi((d.mu - o.mu) / math.hypot(d.sigma, o.sigma)) for o in self.onsets(self.w.compgroup[group]['frag'])]

    def group_im(self, group):
        return self.im_of(self.w.compgroup[group]['edp'])

    def reach_im(self, group, x):
        return self.reach(group, self.demand(self.w.compgroup[group]['edp'], x))

    def ds_rates(self, group):
        im = self.group_im(group)
        n = len(self.onsets(self.w.compgroup[group]['frag']))
        xs, ws = self.grid(im)
        tot = [0.0] * n
        for x, w in zip(xs, ws):
            for i, p in enumerate(self.reach_im(group, x)):
                tot[i] += p * w
        return tot

    def annual_group(self, group, what='cost'):
        return self.integral(self.group_im(group), lambda x: self.loss_im(group, what, x)[0], 400)

    def cost_rate(self, group, cost):
        return self.integral(self.group_im(group), lambda x: self.cost_at_least(group, cost, x), 400)

    def cost_at_least(self, group, cost, x):
        m, q = self.loss_im(group, 'cost', x)
        if not m > 1e-140:
            return 0.0
        s = of_moments(m, q)
        return LN(math.log(m) - s * s / 2, max(s, 1e-9)).ccdf(cost)

    def full_loss(self, group, what='cost'):
        g = self.w.compgroup[group]
        if g[what] is None:
            return 1.0
        return max(1, g['count']) * max(1e-300, max(u.mean() for u in self.units(g[what], g['count'])))

    # ---- structures
    def struct_im(self, st):
        return self.group_im(self.w.structure[st]['groups'][0])

    def repair(self, st, x):
        """mean and variance of the repair cost"""
        m = v = 0.0
        for g in self.w.structure[st]['groups']:
            a, q = self.loss_im(g, 'cost', x)
            m += a
            v += max(0.0, q - a * a)
        return m, v

    def fate(self, st, which):
        d = self.w.structure[st][which]
        return dist(*d) if d else LN(nan, nan)

    def total(self, st, x):
        im = self.struct_im(st)
        m, v = self.repair(st, x)
        r, d, c = self.pR(im, x), self.pD(im, x), self.pC(im, x)
        mean, q = r * m, r * (v + m * m)
        for p, f in ((d, 'demolition'), (c, 'rebuild')):
            if p > 0:
                mean += p * self.fate(st, f).mean()
                q += p * self.fate(st, f).m2()
        return mean, q

    def with_collapse(self, st, x):
        im = self.struct_im(st)
        m, v = self.repair(st, x)
        c = self.pC(im, x)
        mean, q = (1 - c) * m, (1 - c) * (v + m * m)
        if c > 0:
            mean += c * self.fate(st, 'rebuild').mean()
            q += c * self.fate(st, 'rebuild').m2()
        return mean, q

    def annual(self, st):
        im = self.struct_im(st)
        xs, ws = self.grid(im, 400)
        m = q = 0.0
        for x, w in zip(xs, ws):
            if w > 0:
                a, b = self.total(st, x)
                m += a * w
                q += b * w
        return m, q

    def full_struct(self, st):
        s = self.w.structure[st]
        t = sum(self.full_loss(g) * self.w.compgroup[g]['cost_adj'] for g in s['groups'])
        for f in ('rebuild', 'demolition'):
            if s[f]:
                t = max(t, self.fate(st, f).mean())
        return t


def fn_value(f, x):
    kind, p = f
    if kind == 'power law':
        return p[0] * x ** p[1]
    if kind == 'hyperbolic':
        return 0.0 if x >= p[1] else p[0] * math.exp(p[2] / math.log(x / p[1]))
    xs, ys = p
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    i = int(np.searchsorted(xs, x, side='right')) - 1
    if kind == 'linear':
        return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
    t = math.log(x / xs[i]) / math.log(xs[i + 1] / xs[i])
    return ys[i] * (ys[i + 1] / ys[i]) ** t


# ---- generators ---------------------------------------------------------------------------------------------------
def r5(x):
    return float('%.5g' % x)


def gen_ids(s, n, prefix):
    """distinct identifiers in the form the SLAT language accepts"""
    out = []
    for i in range(n):
        out.append('%s%s%d' % (prefix, s.pick(['', '_', '.', 'x', '_a.']), i))
    return out


def gen_fn_any(s):
    """any function, for values only"""
    k = s.draw(4)
    if k == 0:
        return ('power law', [r5(s.logreal(1e-4, 1e3)), r5(s.real(-3, 3))])
    if k == 1:
        return ('hyperbolic', [r5(s.logreal(1, 1e4)), r5(s.real(1, 60)), r5(s.real(5, 90))])
    return gen_table(s, 'linear' if k == 2 else 'loglog')


def gen_table(s, kind):
    n = s.integer(2, 8)
    x = r5(s.logreal(0.01, 1)) if kind == 'loglog' or s.boolean() else 0.0
    xs, ys = [], []
    for i in range(n):
        xs.append(r5(x))
        ys.append(r5(s.logreal(1e-4, 1e3)) if kind == 'loglog' or s.chance(4, 5) else -r5(s.real(0, 5)))
        x = xs[-1] * s.real(1.1, 3) + 0.01
    return (kind, [xs, ys])


def gen_hazard(s):
    k = s.weighted([3, 2])
    if k == 0:
        return ('hyperbolic', [r5(s.logreal(50, 5000)), r5(s.real(8, 60)), r5(s.real(30, 90))])
    xs, ys = [], []
    x, y = s.logreal(0.005, 0.05), s.logreal(0.05, 1)
    for i in range(s.integer(6, 9)):
        xs.append(r5(x))
        ys.append(r5(y))
        x *= s.real(1.7, 2.6)
        y *= s.real(0.08, 0.5)
    return (s.pick(['loglog', 'linear']), [xs, ys])


def express(s, d, kinds=None):
    """the lognormal d as parameters of a randomly chosen kind"""
    mk, sk = s.pick(kinds or [('mean_ln_x', 'sd_ln_x'), ('mean_x', 'sd_ln_x'), ('median_x', 'sd_ln_x'), ('mean_x', 'sd_x')])
    mu = {'mean_ln_x': d.mu, 'mean_x': d.mean(), 'median_x': d.median()}[mk]
    sd = d.sigma if sk == 'sd_ln_x' else d.sd()
    return (r5(mu), mk, r5(sd), sk)


def gen_dist(s, lo=0.01, hi=1e5):
    return express(s, LN(math.log(s.logreal(lo, hi)), s.real(0.05, 1)))


# what the identifiers with each prefix are for
NAMED = {'pf': 'probfn', 'p': 'probfn', 'im': 'im', 'edp': 'edp', 'frag': 'fragfn', 'loss': 'lossfn', 'cg': 'compgroup', 'st': 'structure'}


class Names:
    def __init__(self, s):
        self.n = 0
        self.s = s
        self.given = {}         # identifier -> kinds that use it

    def new(self, prefix):
        kind = NAMED.get(prefix, 'detfn')
        if self.s.chance(1, 12):
            # objects of different kinds may have the same identifier
            others = [i for i in self.given if kind not in self.given[i]]
            if others:
                id = self.s.pick(others)
                self.given[id].add(kind)
                return id
        id = self.fresh(prefix)
        self.given[id] = {kind}
        return id

    def fresh(self, prefix):
        self.n += 1
        if self.s.chance(1, 12):
            prefix += self.s.pick(['_of_the_second_floor', 'X', '.component.number', '__'])
        return '%s%s%d' % (prefix, self.s.pick(['', '_', '.']), self.n)


def gen_probfn(s, w, names, scale, vanish=True):
    """a demand model growing with intensity, about `scale` at intensity 1"""
    mk = s.pick(['mean_x', 'median_x', 'mean_x', 'median_x', 'mean_ln_x'] if not vanish else ['mean_x', 'median_x'])
    mu, sd = names.new('mu'), names.new('sd')
    sk = 'sd_ln_x'
    if mk == 'mean_ln_x':
        xs, ys = [], []
        x = s.real(0.02, 0.2)
        y = math.log(scale * x)
        for i in range(s.integer(2, 5)):
            xs.append(r5(x))
            ys.append(r5(y))
            x += s.real(0.2, 1)
            y += s.real(0.1, 1.2)
        w.define('detfn', mu, ('linear', [xs, ys]))
    elif s.chance(1, 3):
        xs, ys = [0.0], [0.0]
        x = s.real(0.05, 0.3)
        y = scale * x * s.real(0.5, 2)
        for i in range(s.integer(2, 5)):
            xs.append(r5(x))
            ys.append(r5(y))
            x += s.real(0.2, 0.9)
            y += scale * s.real(0.1, 0.9)
        w.define('detfn', mu, ('linear', [xs, ys]))
    else:
        w.define('detfn', mu, ('power law', [r5(scale * s.real(0.4, 2.5)), r5(s.real(0.5, 1.6))]))
    if mk == 'mean_x' and s.chance(1, 3):
        sk = 'sd_x'
        k = s.real(0.25, 0.8)
        f = w.detfn[mu]
        w.define('detfn', sd, ('power law', [r5(f[1][0] * k), f[1][1]]) if f[0] == 'power law' else ('linear', [f[1][0], [r5(y * k) for y in f[1][1]]]))
    elif s.chance(1, 4):
        xs, ys = [], []
        x = s.real(0, 0.3)
        for i in range(s.integer(2, 4)):
            xs.append(r5(x))
            ys.append(r5(s.real(0.25, 0.8)))
            x += s.real(0.2, 1)
        w.define('detfn', sd, ('linear', [xs, ys]))
    else:
        w.define('detfn', sd, ('power law', [r5(s.real(0.2, 0.8)), 0.0]))
    id = names.new('pf')
    w.define('probfn', id, (mk, mu, sk, sd))
    return id


def gen_im(s, w, names, fates=None):
    f = names.new('haz')
    w.define('detfn', f, gen_hazard(s))
    id = names.new('im')
    w.define('im', id, {'fn': f, 'collapse': None, 'demolition': None})
    if fates is None:
        fates = s.draw(4)
    med, sg = s.real(0.6, 3), r5(s.real(0.25, 0.6))
    kinds = [('mean_ln_x', 'sd_ln_x'), ('mean_x', 'sd_ln_x'), ('median_x', 'sd_ln_x'), ('mean_x', 'sd_x')]
    if fates & 1:
        w.im[id]['collapse'] = express(s, LN(math.log(med), sg), kinds)
    if fates & 2:
        w.im[id]['demolition'] = express(s, LN(math.log(med * s.real(0.3, 0.9)), sg), kinds)
    return id


def gen_frag(s, w, names, scale, n):
    mk, sk = s.pick([('mean_ln_x', 'sd_ln_x'), ('mean_x', 'sd_ln_x'), ('median_x', 'sd_ln_x'), ('mean_x', 'sd_x')])
    m = scale * s.real(0.1, 0.6)
    l = []
    for i in range(n):
        mu, _, sd, _ = express(s, LN(math.log(m), s.real(0.2, 0.6)), [(mk, sk)])
        l.append((mu, sd))
        m *= s.real(1.3, 3)
    id = names.new('frag')
    w.define('fragfn', id, (mk, sk, l))
    return id


def gen_loss(s, w, names, n, money, bilevel=None):
    c = money * s.real(0.2, 1)
    id = names.new('loss')
    if bilevel if bilevel is not None else s.chance(1, 3):
        l = []
        for i in range(n):
            n0 = s.integer(1, 10)
            l.append([n0, n0 + s.integer(1, 30), r5(c), r5(c * (s.real(1, 3) if s.chance(1, 4) else s.real(0.3, 1))), r5(s.real(0.1, 0.8))])
            c *= s.real(0.4, 1.2) if s.chance(1, 6) else s.real(1.2, 4)
        w.define('lossfn', id, ('bilevel', l))
    else:
        mk, sk = s.pick([('mean_ln_x', 'sd_ln_x'), ('mean_x', 'sd_ln_x'), ('median_x', 'sd_ln_x'), ('mean_x', 'sd_x')])
        same = [f for f in w.lossfn.values() if f[0] == 'simple' and len(f[-1]) == n and f[1] != 'mean_ln_x' and max(sd for mu, sd in f[-1]) < 2]
        if same and s.chance(1, 3):
            # the numbers of another one, meaning something else
            f = s.pick(same)
            w.define('lossfn', id, ('simple',) + s.pick([k for k in (('mean_x', 'sd_ln_x'), ('median_x', 'sd_ln_x'), ('mean_x', 'sd_x')) if k != f[1:3]]) + (list(f[3]),))
            return id
        l = []
        for i in range(n):
            mu, _, sd, _ = express(s, LN(math.log(c), s.real(0.1, 0.8)), [(mk, sk)])
            l.append((mu, sd))
            c *= s.real(0.4, 1.2) if s.chance(1, 6) else s.real(1.2, 4)
        w.define('lossfn', id, ('simple', mk, sk, l))
    return id


def gen_factor(s, rare):
    """an adjustment factor; that for costs is rarely zero, because the rates of a cost that is always zero take very long"""
    return 1.0 if s.boolean() else 0.0 if s.chance(1, rare) else r5(s.real(0.2, 3))


def gen_group(s, w, names, edp, scale, money, states=4, frag=None, cost=True):
    if frag is None:
        frag = gen_frag(s, w, names, scale, s.integer(1, states))
    n = len(w.fragfn[frag][2])
    c = gen_loss(s, w, names, n, money) if cost else None
    d = gen_loss(s, w, names, n, s.logreal(0.1, 50)) if s.boolean() else None
    id = names.new('cg')
    w.define('compgroup', id, {'edp': edp, 'frag': frag, 'cost': c, 'delay': d,
                               'count': 0 if s.chance(1, 12) else 1 if s.chance(1, 4) else s.size(2, 40, 3000),
                               'cost_adj': gen_factor(s, 20), 'delay_adj': gen_factor(s, 8)})
    return id


def gen_building(s, groups=4, states=4, compound=True, nocost=True, structure=True):
    """one hazard, some demands, component groups sharing demands and fragility functions, one structure; -> world"""
    w = World()
    names = Names(s)
    im = gen_im(s, w, names)
    scale = s.pick([1.0, 0.03])
    money = s.logreal(0.01, 1e9) if s.chance(1, 8) else s.logreal(1, 1e4)
    edps = []
    for i in range(s.integer(1, 3)):
        p = gen_probfn(s, w, names, scale)
        e = names.new('edp')
        w.define('edp', e, ('simple', im, p))
        edps.append(e)
    if compound and len(edps) > 1 and s.boolean():
        e = names.new('edp')
        w.define('edp', e, ('compound', im, w.edp[edps[0]][2], w.edp[edps[1]][2], edps[0], edps[1]))
        edps.append(e)
    gs = []
    for i in range(s.integer(1, groups)):
        frag = w.compgroup[s.pick(gs)]['frag'] if gs and s.chance(1, 3) else None
        gs.append(gen_group(s, w, names, s.pick(edps), scale, money, states, frag, not (nocost and s.chance(1, 12))))
    if structure:
        add_structure(s, w, names, gs, money)
    return w


def add_structure(s, w, names, gs, money):
    im = w.im[w.edp[w.compgroup[gs[0]]['edp']][1]]
    big = money * s.logreal(10, 1000)
    id = names.new('st')
    w.define('structure', id, {'groups': list(gs),
                               'rebuild': express(s, LN(math.log(big), s.real(0.05, 0.8))) if im['collapse'] or s.boolean() else None,
                               'demolition': express(s, LN(math.log(big * s.real(0.3, 1.5)), s.real(0.05, 0.8))) if im['demolition'] or s.boolean() else None})
    return id


# ---- building the objects -----------------------------------------------------------------------------------------
import pyslat, pyslatcore

MU = {'mean_x': pyslat.LOGNORMAL_MU_TYPE.MEAN_X, 'median_x': pyslat.LOGNORMAL_MU_TYPE.MEDIAN_X, 'mean_ln_x': pyslat.LOGNORMAL_MU_TYPE.MEAN_LN_X}
SD = {'sd_x': pyslat.LOGNORMAL_SIGMA_TYPE.SD_X, 'sd_ln_x': pyslat.LOGNORMAL_SIGMA_TYPE.SD_LN_X}


def make_dist(d):
    mu, mk, sd, sk = d
    return pyslat.MakeLogNormalDist(mu, MU[mk], sd, SD[sk])


def make(w, kind, id):
    """define one object through pyslat"""
    d = getattr(w, kind)[id]
    if kind == 'detfn':
        return pyslat.detfn(id, d[0], copy.deepcopy(d[1]))
    if kind == 'probfn':
        return pyslat.probfn(id, 'lognormal', [MU[d[0]], pyslat.detfn.lookup(d[1])], [SD[d[2]], pyslat.detfn.lookup(d[3])])
    if kind == 'im':
        o = pyslat.im(id, pyslat.detfn.lookup(d['fn']))
        if d['collapse']:
            o.SetCollapse(make_dist(d['collapse']))
        if d['demolition']:
            o.SetDemolition(make_dist(d['demolition']))
        return o
    if kind == 'edp':
        if d[0] == 'simple':
            return pyslat.edp(id, pyslat.im.lookup(d[1]), pyslat.probfn.lookup(d[2]))
        return pyslat.edp(id, pyslat.im.lookup(d[1]), pyslat.edp.lookup(d[4]), pyslat.edp.lookup(d[5]))
    if kind == 'fragfn':
        return pyslat.fragfn_user(id, {'mu': MU[d[0]], 'sd': SD[d[1]]}, [list(p) for p in d[2]])
    if kind == 'lossfn':
        if d[0] == 'simple':
            return pyslat.simplelossfn(id, {'mu': MU[d[1]], 'sd': SD[d[2]]}, [list(p) for p in d[3]])
        return pyslat.bilevellossfn(id, copy.deepcopy(d[1]))
    if kind == 'compgroup':
        return pyslat.compgroup(id, pyslat.edp.lookup(d['edp']), pyslat.fragfn.lookup(d['frag']), d['cost'] and pyslat.lossfn.lookup(d['cost']),
                                d['delay'] and pyslat.lossfn.lookup(d['delay']), d['count'], d['cost_adj'], d['delay_adj'])
    o = pyslat.structure(id)
    for g in d['groups']:
        o.AddCompGroup(pyslat.compgroup.lookup(g))
    if d['rebuild']:
        o.setRebuildCost(make_dist(d['rebuild']))
    if d['demolition']:
        o.setDemolitionCost(make_dist(d['demolition']))
    return o


def build(w):
    for kind, id in dict.fromkeys(w.order):
        make(w, kind, id)


# ---- running cases ------------------------------------------------------------------------------------------------
M = pyslat.INTEGRATION_METHOD
DEFAULT = (M.DIRECTED, 1e-3, 2048, 2048)
SETTINGS = [(M.DIRECTED, 1e-4, 3000, 2048), (M.DIRECTED, 1e-5, 20000, 2048), (M.BINARY_SUBDIVISION, 1e-5, 20000, 4096), (M.DIRECTED, 1e-6, 50000, 4096),
            (M.REVERSE_BINARY_SUBDIVISION, 1e-7, 50000, 8192), (M.DIRECTED, 1e-8, 100000, 8192)]
NESTED = [(M.DIRECTED, 1e-4, 3000, 2048), (M.DIRECTED, 2e-5, 3000, 2048), (M.BINARY_SUBDIVISION, 1e-5, 3000, 2048), (M.DIRECTED, 3e-6, 3000, 2048)]


def use(setting):
    pyslat.Set_Integration_Method(setting[0])
    pyslat.IntegrationSettings(setting[1], setting[2])
    pyslat.Set_Integration_Search_Limit(setting[3])


def reset():
    pyslat.LogToStdErr(False)
    pyslat.ClearCaches()
    pyslat._Input_directory = None
    pyslat._Output_directory = None
    use(DEFAULT)


class Scratch:
    """a directory of its own for the case, current while it runs"""
    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix='pbt-')
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)
