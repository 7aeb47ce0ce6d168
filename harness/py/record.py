"""C22: what recorders write, against direct queries of the same objects."""
import io, math, os, warnings
warnings.simplefilter('ignore')
from contextlib import redirect_stdout
import model
from model import *
from pbt import *

STATS = ['mean_x', 'mean_ln_x', 'median_x', 'sd_ln_x', 'sd_x']
FUNCTION = {'detfn': 'detfn', 'probfn': 'probfn', 'imrate': 'im', 'collapse': 'im', 'collrate': 'im', 'edpim': 'edp', 'edprate': 'edp', 'dsedp': 'compgroup', 'dsim': 'compgroup',
            'dsrate': 'compgroup', 'costedp': 'compgroup', 'costim': 'compgroup', 'delayedp': 'compgroup', 'delayim': 'compgroup', 'costrate': 'compgroup', 'totalcost': 'structure',
            'deagg': 'structure', 'pdf': 'structure', 'structcost': 'structure'}
CLASS = {k: getattr(pyslat, k) for k in KINDS}


# ---- points ---------------------------------------------------------------------------------------------------------
class At:
    """points in one of the forms a recorder accepts: .values is what they mean, .make() what is passed"""
    def __init__(self, form, args, values):
        self.form, self.args, self.values = form, args, values

    def make(self):
        a = self.args
        if self.form == 'range':
            return pyslat.frange(a[0], a[2], a[1])
        if self.form == 'linear':
            return pyslat.linrange(*a)
        if self.form == 'log':
            return pyslat.logrange(*a)
        if self.form == 'array':
            return np.array(a)
        return tuple(a) if self.form == 'tuple' else list(a)

    def __str__(self):
        return '%s%s' % (self.form, short(self.args))


def gen_at(s, lo, hi, most=5, ints=False):
    k = s.weighted([6, 3, 2, 2, 1, 1, 1 if ints else 0])
    n = s.size(1, most, 40) if most > 3 else s.integer(1, most)
    if k == 1:
        a, step = r5(s.logreal(lo, hi)), r5(s.logreal(lo, hi) / 3)
        return At('range', [a, step, r5(a + step * (n - 1 + s.pick([0, 0, 0.3])))], [a + i * step for i in range(n)])
    if k in (2, 3):
        a, b = r5(s.logreal(lo, hi)), r5(s.logreal(lo, hi))
        if a > b:
            a, b = b, a
        if k == 2:
            return At('linear', [a, b, n], [a + i * (b - a) / max(1, n - 1) for i in range(n)])
        return At('log', [a, b, n], [a * (b / a) ** (i / max(1, n - 1)) for i in range(n)])
    if k == 6:
        v = [s.integer(1, 4) for _ in range(n)]
        return At(s.pick(['list', 'array']), v, [float(x) for x in v])
    v = [r5(s.logreal(lo, hi)) for _ in range(n)]
    return At({0: 'list', 4: 'array', 5: 'tuple'}[k], v, v)


@prop('c22_ranges', 'the three ways to write a range of values (step, linear count, logarithmic count) with random ends, steps and counts 1..60: number of values, ends, spacing; '
      'non-trivial: at least three values')
def ranges(s):
    k = s.draw(3)
    n = s.integer(1, 60)
    if k == 0:
        d = 10 ** s.integer(0, 4)
        a, step = s.integer(-50, 50) / d, s.integer(1, 40) / d
        e = a + step * (n - 1)
        e = float('%.12g' % e) if s.boolean() else e + step * s.real(0, 0.4)
        l = list(pyslat.frange(a, e, step))
        want = [a + i * step for i in range(n)]
        s.desc('frange', a, e, step)
    else:
        a, b = r5(s.logreal(1e-4, 1e3)), r5(s.logreal(1e-4, 1e3))
        if k == 1 and s.boolean():
            a = s.pick([0.0, -a])
        l = list((pyslat.linrange if k == 1 else pyslat.logrange)(a, b, n))
        want = [a + i * (b - a) / max(1, n - 1) if k == 1 else a * (b / a) ** (i / max(1, n - 1)) for i in range(n)]
        s.desc('linrange' if k == 1 else 'logrange', a, b, n)
    check(len(l) == n, lambda: '%d values instead of %d: %s' % (len(l), n, l))
    for i, (x, y) in enumerate(zip(l, want)):
        eq(x, y, 1e-10, 1e-11 * max(map(abs, want)), 'value %d' % i)
    if n > 2:
        s.nontrivial()


# ---- recorders ------------------------------------------------------------------------------------------------------
def gen_recorder(s, w, heavy=True, types=None):
    """-> spec: type, id of the object, columns, at, options (None when the world has nothing to record)"""
    scale = max(w.fragfn[f][2][0][0] if w.fragfn[f][0] != 'mean_ln_x' else math.exp(w.fragfn[f][2][0][0]) for f in w.fragfn)
    light = ['detfn', 'probfn', 'imrate', 'collapse', 'edpim', 'dsedp', 'costedp', 'delayedp', 'dsim', 'costim', 'delayim', 'totalcost', 'deagg', 'pdf', 'by-fate', 'by-edp', 'by-frag']
    t = s.pick(types or light + (['edprate', 'collrate', 'dsrate', 'costrate', 'annual', 'npv'] if heavy and s.chance(1, 2) else []))
    opt = {}
    if t in ('by-fate', 'by-edp', 'by-frag', 'annual', 'npv'):
        opt['structcost-type'] = t
        t = 'structcost'
    kind = FUNCTION[t]
    ids = list(getattr(w, kind))
    if kind == 'structure':
        ids = [i for i in ids if w.structure[i]['groups']]
    if not ids:
        return None
    id = s.pick(ids)
    cols = None
    at = None
    if t in ('dsedp', 'costedp', 'delayedp', 'edprate'):
        at = gen_at(s, 0.3 * scale, 10 * scale)
    elif t == 'costrate':
        c = w.compgroup[id]['cost']
        m = 1.0 if not c else Ref(w).full_loss(id)
        at = gen_at(s, m * 0.01, m * 0.5, 2)
    elif opt.get('structcost-type') == 'npv':
        first, step, n = s.integer(0, 20), s.integer(1, 10), s.integer(1, 4)
        at = At('list', [first + i * step for i in range(n)], [first + i * step for i in range(n)])
        opt['discount-rate'] = s.pick([0.0, 0.02, 0.06, 0.3])
    elif t not in ('dsrate', 'collrate') and opt.get('structcost-type') != 'annual':
        at = gen_at(s, 0.2, 3, 3 if kind == 'structure' else 5, True)
    if t in ('probfn', 'edpim') and s.chance(2, 3):
        cols = [s.pick(STATS) if s.chance(3, 4) else r5(s.real(0.02, 0.98)) for _ in range(s.integer(1, 6))]
    elif t in ('costedp', 'costim', 'delayedp', 'delayim') and s.boolean():
        cols = [s.pick(['mean_x', 'sd_ln_x']) for _ in range(s.integer(1, 3))]
    elif t in ('dsedp', 'dsim') and s.boolean():
        n = len(w.fragfn[w.compgroup[id]['frag']][2])
        cols = [s.integer(1, n) for _ in range(s.integer(1, 4))]
    elif t == 'totalcost' or t == 'structcost' and opt['structcost-type'] != 'npv':
        if s.chance(2, 3):
            cols = [s.pick(STATS) for _ in range(s.integer(1, 3))]
    if t == 'pdf' and s.boolean():
        opt['normalise'] = True
    return {'type': t, 'id': id, 'cols': cols, 'at': at, 'opt': opt}


def make_recorder(name, r):
    return pyslat.MakeRecorder(name, r['type'], CLASS[FUNCTION[r['type']]].lookup(r['id']), dict(r['opt']), r['cols'] and list(r['cols']), r['at'] and r['at'].make())


def describe(r):
    return '%s %s at %s cols %s %s' % (r['type'], r['id'], r['at'], short(r['cols']), short(r['opt']))


def stat(d, c):
    return {'mean_x': d.mean, 'mean_ln_x': d.mean_ln, 'median_x': d.median, 'sd_ln_x': d.sd_ln, 'sd_x': d.sd}[c]()


def stat_ln(d, c):
    """the same for a distribution of the reference"""
    return {'mean_x': d.mean, 'mean_ln_x': lambda: d.mu, 'median_x': d.median, 'sd_ln_x': lambda: d.sigma, 'sd_x': d.sd}[c]()


def summed(parts):
    m = sum(a for a, b in parts)
    v = sum(a * a * math.expm1(b * b) for a, b in parts if a > 0)
    if m <= 0:
        return LN(-inf, 0)
    t = math.log1p(v / m ** 2)
    return LN(math.log(m) - t / 2, math.sqrt(t))


def loss_columns(f, g, cols):
    return [f if c == 'mean_x' else g for c in cols]


def expected(w, r):
    """the rows of the table: the heading, then numbers"""
    t, id, opt = r['type'], r['id'], r['opt']
    o = CLASS[FUNCTION[t]].lookup(id)
    ref = Ref(w)
    at = r['at'].values if r['at'] else []
    cols = r['cols']
    if t == 'dsrate':
        v = list(o.Rate())
        return [['DS%d' % (i + 1) for i in range(len(v))], v]
    if t == 'collrate':
        return [['IM', 'rate(Demolition)', 'rate(Collapse)'], [id, o.DemolitionRate(), o.CollapseRate()]]
    if t == 'detfn':
        return [['x', 'y']] + [[x, o.ValueAt(x)] for x in at]
    if t == 'imrate':
        return [[id, 'lambda']] + [[x, o.getlambda(x)] for x in at]
    if t == 'edprate':
        return [['EDP', 'lambda']] + [[x, o.getlambda(x)] for x in at]
    if t == 'collapse':
        return [[id, 'p(Demolition)', 'p(Collapse)']] + [[x, o.pDemolition(x), o.pCollapse(x)] for x in at]
    if t in ('probfn', 'edpim'):
        cols = cols or ['mean_ln_x', 'sd_ln_x']
        f = {'mean_x': o.Mean, 'mean_ln_x': o.MeanLn, 'median_x': o.Median, 'sd_ln_x': o.SD_ln, 'sd_x': o.SD}
        return [['x' if t == 'probfn' else w.edp[id][1]] + cols] + [[x] + [f[c](x) if c in f else o.X_at_exceedence(x, c) for c in cols] for x in at]
    if t in ('dsedp', 'dsim'):
        n = len(w.fragfn[w.compgroup[id]['frag']][2])
        head = ['EDP' if t == 'dsedp' else ref.group_im(id)] + ['DS%d' % c for c in cols or range(1, n + 1)] + ([] if cols else ['E(DS)'])
        rows = [head]
        for x in at:
            p = list(o.fragfn().pExceeded(x) if t == 'dsedp' else o.pDS_IM(x))
            rows.append([x] + ([p[c - 1] for c in cols] if cols else p + [sum(p)]))
        return rows
    if t in ('costedp', 'delayedp', 'costim', 'delayim'):
        cols = cols or ['mean_x', 'sd_ln_x']
        f = {'costedp': (o.E_Cost_EDP, o.SD_ln_Cost_EDP), 'delayedp': (o.E_Delay_EDP, o.SD_ln_Delay_EDP), 'costim': (o.E_Cost_IM, o.SD_ln_Cost_IM), 'delayim': (o.E_Delay_IM, o.SD_ln_Delay_IM)}[t]
        return [['EDP' if t.endswith('edp') else ref.group_im(id)] + cols] + [[x] + [f[c != 'mean_x'](x) for c in cols] for x in at]
    if t == 'costrate':
        return [['t', 'Rate']] + [[x, o.lambda_cost(x)] for x in at]
    im = ref.struct_im(id)
    if t == 'totalcost':
        cols = cols or ['mean_x', 'sd_ln_x']
        return [[im] + cols] + [[x] + [stat(o.TotalCost(x), c) for c in cols] for x in at]
    if t == 'deagg':
        rows = [[im, 'mean_nc', 'sd_nc', 'mean_c', 'sd_c']]
        for x in at:
            a, b = o.DeaggregatedCost(x)
            rows.append([x, a.get_mean_X(), a.get_sigma_lnX(), b.get_mean_X(), b.get_sigma_lnX()])
        return rows
    if t == 'pdf':
        v = [o.pdf(x) for x in at]
        k = max(v) if opt.get('normalise') and max(v) > 0 else 1.0
        return [[im, 'pdf']] + [[x, y / k] for x, y in zip(at, v)]
    how = opt['structcost-type']
    cols = cols or ['mean_x']
    if how == 'annual':
        return [cols, [stat(o.AnnualCost(), c) for c in cols]]
    if how == 'npv':
        return [['Year', 'E[ALt]']] + [[float(y), o.E_cost(y, opt['discount-rate'])] for y in at]
    if how == 'by-fate':
        rows = [[im] + ['%s.%s' % (f, c) for f in ('repair', 'demo', 'coll') for c in cols]]
        for x in at:
            d = o.CostsByFate(x)
            rows.append([x] + [stat(f, c) for f in d for c in cols])
        return rows
    groups = {}
    for g in w.structure[id]['groups']:
        groups.setdefault(w.compgroup[g]['edp' if how == 'by-edp' else 'frag'], []).append(pyslat.compgroup.lookup(g))
    rows = [[im] + ['%s.%s' % (k, c) for k in sorted(groups) for c in cols]]
    for x in at:
        row = [x]
        for k in sorted(groups):
            d = summed([(g.E_Cost_IM(x), g.SD_ln_Cost_IM(x)) for g in groups[k]])
            row += [stat_ln(d, c) for c in cols]
        rows.append(row)
    return rows


def compare(text, rows, what):
    """the text of one or more tables against their rows"""
    lines = text.split('\n')
    check(lines and lines[-1] == '', lambda: '%s: the last line is not ended: %r' % (what, text[-60:]))
    lines.pop()
    check(len(lines) == len(rows), lambda: '%s: %d lines instead of %d:\n%s' % (what, len(lines), len(rows), text))
    for l, row in zip(lines, rows):
        if all(isinstance(c, str) for c in row):
            check(l.split() == ''.join(' ' + c for c in row).split(), lambda: '%s: heading %r, expected %r' % (what, l, row))
            continue
        got = l.split()
        check(len(got) == len(row), lambda: '%s: %d values instead of %d: %r' % (what, len(got), len(row), l))
        for i, (g, x) in enumerate(zip(got, row)):
            if isinstance(x, str):
                check(g == x, lambda: '%s: %r instead of %r' % (what, g, x))
                continue
            try:
                v = float(g)
            except ValueError:
                fail('%s: column %d is %r, expected %r' % (what, i, g, x))
            check(close(v, x, 1.1e-5, 1e-300), lambda: '%s: column %d is %s, expected %r (in %r)' % (what, i, g, x, l))


def heading(rows):
    rows[0] = [str(c) for c in rows[0]]
    return rows


def path_of(out, name):
    p = name if os.path.dirname(name) else os.path.join(out or '.', name)
    return p if os.path.splitext(name)[1] else p + '.csv'


def gen_destination(s):
    """file name or None, and whether to append"""
    if s.chance(1, 3):
        return None, False
    return s.pick(['one', 'two.txt', 'three.out.dat', 'sub/four', './five', 'sub/six.csv']), s.boolean()


@prop('c22_recorders', 'a random building with 2..6 recorders of random types, objects, points (lists, arrays, three kinds of ranges), columns and destinations (standard output; files, appended to or replaced, in the '
      'output directory or not), run once or twice in order: headings, row and column order and values against direct queries of the objects, and nothing written elsewhere; non-trivial: two types, one to a file')
def recorders(s):
    with Scratch() as top:
        w = gen_building(s, 3, 3)
        s.desc(w.text())
        build(w)
        os.mkdir('sub')
        out = s.pick([None, None, 'res', 'res/deep'])
        if out:
            pyslat.set_output_directory(out)
        s.desc('output directory', out)
        recs, seen = {}, set()
        for i in range(s.integer(2, 6)):
            r = gen_recorder(s, w)
            if not r:
                continue
            f, append = gen_destination(s)
            if f:
                r['opt']['filename'] = f
                if append or s.boolean():
                    r['opt']['append'] = append
            name = s.pick(['r%d' % i, 'r%d' % i, 'r0'])
            s.desc('recorder %s %s' % (name, describe(r)))
            s.label(r['type'] + (' ' + r['opt']['structcost-type'] if r['type'] == 'structcost' else ''))
            make_recorder(name, r)
            recs[name] = r
            seen.add(r['type'])
        files = {}
        for i in range(s.integer(1, 2)):
            check(list(pyslat.recorder.defs) == list(recs), lambda: 'recorders %s, expected %s' % (list(pyslat.recorder.defs), list(recs)))
            for name, R in zip(recs, pyslat.recorder.all()):
                r = recs[name]
                buf = io.StringIO()
                with redirect_stdout(buf):
                    R.run()
                rows = heading(expected(w, r))
                f = r['opt'].get('filename')
                if f:
                    check(buf.getvalue() == '', 'output of %s besides its file: %r' % (name, buf.getvalue()[:200]))
                    p = os.path.normpath(path_of(out, f))
                    files[p] = (files.get(p, []) if r['opt'].get('append') else []) + rows
                else:
                    compare(buf.getvalue(), rows, 'recorder %s' % name)
        there = set()
        for d, _, l in os.walk('.'):
            there |= {os.path.normpath(os.path.join(d, f)) for f in l}
        check(there == set(files), lambda: 'files %s, expected %s' % (sorted(there), sorted(files)))
        for p in files:
            compare(open(p).read(), files[p], p)
        if len(seen) > 1 and files:
            s.nontrivial()


if __name__ == '__main__':
    main(reset)
