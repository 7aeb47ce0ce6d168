"""C23: functions imported from files of analysis results."""
import math, os, statistics, warnings
warnings.simplefilter('ignore')
import model
from model import *
from pbt import *
import interp

FORMATS = ['%r', '%.6g', '%.10e', '%.8f', '%E']


def spaced(s, cells):
    sep = s.pick([' ', '\t', '   ', ' \t'])
    return s.pick(['', '', ' ', '\t']) + sep.join(cells) + s.pick(['', '', ' '])


def heading(s):
    return s.pick(['', 'IM EDP', '2.5 17 3', '# results', 'Sa(1.5s)\tg', '-', '0.5 "quoted text"', 'x, y; z', 'D\u00e9placement \u0394 (mm)'])


def write(s, path, rows):
    """two heading lines and the rows; returns the numbers as written"""
    fmt = s.pick(FORMATS)
    text, vals = [heading(s), heading(s)], []
    for r in rows:
        cells = ['0' if v == 0 and s.boolean() else fmt % v for v in r]
        vals.append([float(c) for c in cells])
        text.append(spaced(s, cells))
        if s.chance(1, 10):
            text.append(s.pick(['', '   ', '# note']))
    t = '\n'.join(text) + s.pick(['\n', '\n', '', '\n\n'])
    if s.chance(1, 6):
        t = t.replace('\n', '\r\n')
    os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
    open(path, 'w', encoding='utf-8', newline='').write(t)
    return vals


def gen_place(s):
    """name to give, and where the file is"""
    name = s.pick(['data', 'data.txt', 'im_1.csv', 'sub/data', 'sub/d.dat', './here', 'a.b'])
    indir = s.pick([None, None, 'inputs', 'in/deep'])
    p = name if os.path.dirname(name) else os.path.join(indir or '.', name)
    return name, indir, p if os.path.splitext(name)[1] else p + '.csv'


def bring(s, kind, id, name, indir):
    """by script or through the functions"""
    if s.boolean() and not name.startswith('./'):
        s.desc('by script')
        interp.run('%s%s %s %s;' % ('inputdir %s;\n' % indir if indir else '', 'importprobfn' if kind == 'probfn' else 'importimfn', id, name))
    else:
        if indir:
            pyslat.set_input_directory(indir)
        (pyslat.ImportProbFn if kind == 'probfn' else pyslat.ImportIMFn)(id, name)


def increasing(s, n):
    x, l = s.logreal(0.01, 0.5), []
    for i in range(n):
        l.append(r5(x))
        x = l[-1] * (s.real(1.05, 2.5) if n < 15 else s.real(1.02, 1.2)) + 0.001
    return l


@prop('c23_demand', 'random files of demands (1..8 intensities, 2..12 results each, some of them zero for collapses, several number formats, spacings, comments and headings; default and given directories and extensions), '
      'imported by function or script, also over an existing definition: median and dispersion at and between the points against the statistics of the non-zero results; non-trivial: two intensities and a zero')
def demand(s):
    with Scratch():
        name, indir, path = gen_place(s)
        k = s.size(2, 12, 120)
        rows = []
        unit = s.logreal(1e-6, 1e6) if s.chance(1, 8) else 1.0
        for x in increasing(s, s.size(1, 8, 60)):
            m = unit * s.logreal(1e-3, 10)
            r = [m * math.exp(s.real(-1, 1)) for _ in range(k)]
            for i in range(s.pick([0, 0, 1, k - 2])):
                r[s.draw(k)] = 0.0
            if sum(v > 0 for v in r) < 2:
                r[0], r[1] = m, m * 1.3
            rows.append([x] + r)
        vals = write(s, path, rows)
        if any(sum(v > 0 for v in r[1:]) < 2 for r in vals):
            raise Discard()
        s.desc(name, indir, short(vals))
        edp = None
        if s.boolean():
            pyslat.probfn('p', 'lognormal', [MU['mean_x'], pyslat.detfn('a', 'power law', [3.0, 1.0])], [SD['sd_ln_x'], pyslat.detfn('b', 'power law', [0.4, 0.0])])
            edp = pyslat.edp('e', pyslat.im('i', pyslat.detfn('h', 'hyperbolic', [1221.0, 29.8, 62.2])), pyslat.probfn.lookup('p'))
            edp.Mean(1.0)
            s.desc('over an earlier definition')
        bring(s, 'probfn', 'p', name, indir)
        p = pyslat.probfn.lookup('p')
        xs, med, sd = [0.0], [0.0], [0.0]
        for r in vals:
            l = [math.log(v) for v in r[1:] if v != 0]
            xs.append(r[0])
            med.append(math.exp(statistics.fmean(l)))
            sd.append(statistics.stdev(l))
        at = [s.pick(xs[1:]), xs[-1] * s.real(1, 2), s.real(xs[1] * 0.1, xs[1]), s.real(xs[1], xs[-1]), s.real(xs[1], xs[-1])]
        for x in at:
            m, d = fn_value(('linear', [xs, med]), x), fn_value(('linear', [xs, sd]), x)
            eq(p.Median(x), m, 1e-9, 0, 'median at %g' % x)
            eq(p.SD_ln(x), d, 1e-9, 1e-12, 'dispersion at %g' % x)
            eq(p.Mean(x), m * math.exp(d * d / 2), 1e-9, 0, 'mean at %g' % x)
            if edp:
                eq(edp.Median(x), m, 1e-9, 0, 'median of the demand at %g' % x)
        if len(vals) > 1 and any(0 in r for r in vals):
            s.nontrivial()


@prop('c23_hazard', 'random files of hazard curves (2..12 rows, extra columns, formats and places as c23_demand), imported by function or script, also over an existing definition: rates at, between and beyond the '
      'points against logarithmic interpolation; non-trivial: three points')
def hazard(s):
    with Scratch():
        name, indir, path = gen_place(s)
        rows, y, extra = [], s.logreal(1e-3, 1), s.integer(0, 2)
        for x in increasing(s, s.size(2, 12, 80)):
            rows.append([x, r5(y)] + [r5(s.logreal(1e-3, 1e3)) for _ in range(extra)])
            y *= s.real(0.05, 0.95) if len(rows) < 12 else s.real(0.8, 0.99)
        vals = write(s, path, rows)
        if any(r[1] == 0 for r in vals):
            raise Discard()
        s.desc(name, indir, short(vals))
        edp = None
        if s.boolean():
            i = pyslat.im('i', pyslat.detfn('h', 'hyperbolic', [1221.0, 29.8, 62.2]))
            edp = pyslat.edp('e', i, pyslat.probfn('p', 'lognormal', [MU['mean_x'], pyslat.detfn('a', 'power law', [3.0, 1.0])], [SD['sd_ln_x'], pyslat.detfn('b', 'power law', [0.4, 0.0])]))
            i.getlambda(1.0)
            s.desc('over an earlier definition')
        bring(s, 'im', 'i', name, indir)
        o = pyslat.im.lookup('i')
        f = ('loglog', [[r[0] for r in vals], [r[1] for r in vals]])
        xs = f[1][0]
        at = [s.pick(xs), xs[-1] * s.real(1, 2), xs[0] * s.real(0.2, 1), s.real(xs[0], xs[-1]), s.real(xs[0], xs[-1])]
        for x in at:
            eq(o.getlambda(x), fn_value(f, x), 1e-9, 0, 'rate at %g' % x)
            eq(o.pRepair(x), 1, 0, 0, 'no collapse or demolition')
        if edp:
            eq(edp.get_IM().getlambda(at[-1]), fn_value(f, at[-1]), 1e-9, 0, 'hazard curve of the demand')
        if len(vals) > 2:
            s.nontrivial()


@prop('c23_refused', 'files that cannot be imported (missing, without data, ragged, with words, with points out of order, negative): an exception, and earlier definitions stay as they were; non-trivial: always')
def refused(s):
    with Scratch():
        name, indir, path = gen_place(s)
        kind = s.pick(['probfn', 'im'])
        pyslat.detfn('h', 'hyperbolic', [1221.0, 29.8, 62.2])
        pyslat.im('i', pyslat.detfn.lookup('h'))
        pyslat.probfn('p', 'lognormal', [MU['mean_x'], pyslat.detfn('a', 'power law', [3.0, 1.0])], [SD['sd_ln_x'], pyslat.detfn('b', 'power law', [0.4, 0.0])])
        xs = increasing(s, s.integer(3, 6))
        rows = [[x] + [r5(s.logreal(0.01, 1)) for _ in range(4 if kind == 'probfn' else 1)] for x in xs]
        what = s.pick(['missing', 'ragged', 'words', 'order', 'repeated', 'empty'] + ['negative'] * (kind == 'probfn'))
        if what == 'ragged':
            rows[-1].append(1.0) if s.boolean() else rows[0].pop()
        elif what == 'order':
            rows[0], rows[2] = rows[2], rows[0]
        elif what == 'repeated':
            rows[1][0] = rows[0][0]
        elif what == 'empty':
            rows = []
        elif what == 'negative':
            rows[1][1] = -rows[1][1]
        if what != 'missing':
            write(s, path, rows)
            if what == 'words':
                open(path, 'a').write('\n1.5 many things 2\n')
        s.label(what)
        s.desc(kind, what, name, indir)
        s.nontrivial()
        try:
            bring(s, kind, 'p' if kind == 'probfn' else 'i', name, indir)
        except Exception:
            pass
        else:
            fail('accepted: %s' % what)
        eq(pyslat.im.lookup('i').getlambda(0.5), fn_value(('hyperbolic', [1221.0, 29.8, 62.2]), 0.5), 1e-9, 0, 'the hazard curve afterwards')
        eq(pyslat.probfn.lookup('p').Mean(1.0), 3.0, 1e-9, 0, 'the demand afterwards')


if __name__ == '__main__':
    main(reset)
