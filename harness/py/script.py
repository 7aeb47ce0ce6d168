"""C21: random models written in the SLAT language, run through the interpreter, against the reference."""
import io, math, os, re, warnings
warnings.simplefilter('ignore')
import model, agree, record, interp
from model import *
from pbt import *

WORDS = {'power law': 'powerlaw', 'hyperbolic': 'hyperbolic', 'loglog': 'loglog', 'linear': 'linear'}
GLUE = set(',:[]();')


def tail_number(t):
    return t[-1:].isdigit() or t[-1:] == '.'


class Script:
    """tokens of a script under construction; spelling and layout are drawn when it is written out"""
    def __init__(self, s):
        self.s = s
        self.commands = []          # lists of tokens
        self.parts = []             # finished files
        self.vars = {}              # name -> value, in the current file
        self.n = 0
        self.used = set()

    def add(self, *tokens):
        self.commands.append(list(tokens))

    def flat(self, l):
        for t in l:
            if isinstance(t, (list, tuple)):
                yield from self.flat(t)
            else:
                yield t

    # ---- values
    def literal(self, v, needs_point=False):
        s = self.s
        forms = [repr(float(v)), '%.16e' % v if s.boolean() else '%.16E' % v]
        if float('%.12g' % v) == v:
            forms.append('%.12g' % v)
        if v == int(v) and abs(v) < 1e6:
            forms += ['%d.' % v, '%d' % v, '%d.000' % v, '%de0' % v]
        if 0 < abs(v) < 1 and repr(float(v))[:3] in ('0.%s' % repr(float(v))[2:3], '-0.'):
            forms.append(repr(float(v)).replace('0.', '.', 1))
        if v > 0:
            forms.append('+' + repr(float(v)))
        if v > 0 and s.boolean():
            forms.append('00' + repr(float(v)))
        t = s.pick(forms)
        if needs_point and t.isdigit():
            t += '.'
        return t

    def number(self, v):
        """a number as literal, variable or expression"""
        s = self.s
        if isinstance(v, int):
            return [self.integer(v)]
        k = s.weighted([12, 2, 2])
        if k == 0:
            return [self.literal(v)]
        if k == 1:
            return [self.variable(v)]
        return [self.expression(v)]

    def integer(self, v):
        k = self.s.weighted([6, 1, 1])
        if k == 0:
            return '%d' % v
        if k == 1:
            return self.variable(v)
        return '$(%d)' % v

    def expression(self, v):
        s = self.s
        r = repr(v)
        self.used.add('expression')
        f = ['%s', '(%s)', ' %s ', '%s*1', '[1, %s][1]', 'math.fsum([%s])', '(lambda x: x)(%s)', 'list(map(lambda x: x + 0, [%s]))[0]', 'numpy.array([%s])[0]', '{"a": %s}["a"]', '((%s))',
             '%s if ")" else 0'.replace('")"', '1')]
        return '$(%s)' % (s.pick(f) % r)

    def variable(self, v):
        """a variable with this value: an earlier one, or a new one, set before the command"""
        s = self.s
        self.used.add('variable')
        same = [k for k in self.vars if type(self.vars[k]) == type(v) and self.vars[k] == v]
        if same and s.boolean():
            name = s.pick(same)
            self.touched.add(name)
            return '$' + name
        free = [k for k in self.vars if k not in self.touched]
        if free and s.chance(1, 3):
            name = s.pick(free)
        else:
            self.n += 1
            name = s.pick(['v', 'x_', 'val.', '_', 'im_', 'V']) + str(self.n)
        self.vars[name] = v
        self.touched.add(name)
        if isinstance(v, list) and len(v) and s.boolean():
            toks = ['[']
            for i, x in enumerate(v):
                toks += ([','] if i else []) + [self.string(x) if isinstance(x, str) else '%d' % x if isinstance(x, int) else self.literal(x, True)]
            self.pending.append(['set', name] + toks + [']'])
        elif isinstance(v, list):
            self.pending.append(['set', name, '$(%r)' % v])
        elif isinstance(v, str):
            self.pending.append(['set', name, v if s.boolean() else self.string(v)])
        elif isinstance(v, int):
            self.pending.append(['set', name, '%d' % v])
        else:
            lit = self.literal(v, True)
            self.pending.append(['set', name, s.pick([lit, self.expression(v)])])
        if s.chance(1, 8) and not isinstance(v, str):
            self.n += 1
            other = 'w%d' % self.n
            self.pending.append(['set', other, '$' + name])
            self.vars[other] = v
            self.touched.add(other)
            name = other
        return '$' + name

    def string(self, t):
        s = self.s
        q = s.pick('\'"')
        out = ''
        for c in t:
            out += '\\' + c if c in (q, '\\') else c
        return q + out + q

    # ---- commands
    def command(self, *tokens):
        """tokens, where a callable is a part that may need variables set first"""
        self.pending = []
        self.touched = set()        # variables that this command uses
        toks = []
        for t in tokens:
            toks += list(self.flat(t() if callable(t) else [t]))
        self.commands += self.pending
        self.commands.append(toks)

    def pair(self, a, b):
        return lambda: ['[', self.number(a), ',', self.number(b), ']']

    def pairs(self, l):
        out = []
        for i, (a, b) in enumerate(l):
            out += ([','] if i else []) + [self.pair(a, b)]
        return out

    def options(self, mk, sk, dmk='mean_ln_x', dsk='sd_ln_x'):
        s = self.s
        mu = [] if mk == dmk and s.boolean() else ['--mu', mk]
        sd = [] if sk == dsk and s.boolean() else ['--sd', sk]
        return sd + mu if s.boolean() else mu + sd

    def name_of(self, id):
        """the name of a function, or a variable that holds it"""
        if self.s.chance(1, 5):
            return lambda: [self.variable(id)]
        return id

    def define(self, w, kind, id):
        d = getattr(w, kind)[id]
        if kind == 'detfn':
            if d[0] in ('linear', 'loglog'):
                self.command('detfn', id, d[0], *self.pairs(zip(*d[1])))
            else:
                toks = []
                for i, v in enumerate(d[1]):
                    toks += ([','] if i else []) + [lambda v=v: self.number(v)]
                self.command('detfn', id, WORDS[d[0]], *toks)
        elif kind == 'probfn':
            self.command('probfn', id, 'lognormal', self.name_of(d[1]), ',', self.name_of(d[3]), self.options(d[0], d[2]))
        elif kind == 'im':
            self.command('im', id, d['fn'])
            for k in ('collapse', 'demolition') if self.s.boolean() else ('demolition', 'collapse'):
                if d[k]:
                    self.dist(k, id, d[k])
        elif kind == 'edp':
            self.command('edp', id, d[1], d[2])
        elif kind == 'fragfn':
            self.command('fragfn', id, *self.pairs(d[2]), self.options(d[0], d[1]))
        elif kind == 'lossfn':
            if d[0] == 'simple':
                self.command('lossfn', id, 'simple', *self.pairs(d[3]), self.options(d[1], d[2]))
            else:
                toks = []
                for i, row in enumerate(d[1]):
                    toks += ([','] if i else []) + ['[']
                    for j, v in enumerate(row):
                        toks += ([','] if j else []) + [lambda v=v: self.number(v)]
                    toks.append(']')
                self.command('lossfn', id, 'bilevel', *toks)
        elif kind == 'compgroup':
            toks = ['compgroup', id, d['edp'], d['frag'], d['cost']] + ([d['delay']] if d['delay'] else []) + ['%d' % d['count']]
            if d['delay_adj'] != 1:
                toks += [self.literal(d['cost_adj'], True), self.literal(d['delay_adj'], True)]
            elif d['cost_adj'] != 1 or self.s.boolean():
                toks += [self.literal(d['cost_adj'], True)]
            self.command(*toks)
        else:
            toks = []
            for i, g in enumerate(d['groups']):
                toks += ([','] if i else []) + [g]
            self.command('structure', id, *toks)
            if d['rebuild']:
                self.dist('rebuildcost', id, d['rebuild'])
            if d['demolition']:
                self.dist('demolitioncost', id, d['demolition'])

    def dist(self, word, id, d):
        mu, mk, sd, sk = d
        self.command(word, id, lambda: self.number(mu), ',', lambda: self.number(sd), self.options(mk, sk))

    def at(self, at):
        s, a = self.s, at.args
        if at.form in ('list', 'tuple', 'array'):
            if any(isinstance(v, int) for v in a):
                k = 1 + s.draw(2)
            else:
                k = s.draw(3)
            if k == 0:
                toks = []
                for i, v in enumerate(a):
                    toks += ([','] if i else []) + [self.literal(v, True)]
                return toks
            if k == 1:
                return [self.variable(list(a))]
            return ['$(%s)' % s.pick(['numpy.array(%r)', '%r', 'list(map(lambda x: x, %r))']) .replace('%r', repr(list(a)))]
        if s.chance(1, 4):
            return ['$(pyslat.%s)' % {'range': 'frange(%r, %r, %r)' % (a[0], a[2], a[1]), 'linear': 'linrange(%r, %r, %d)' % tuple(a), 'log': 'logrange(%r, %r, %d)' % tuple(a)}[at.form]]
        if at.form == 'range':
            return [self.literal(a[0], True), ':', self.literal(a[1], True), ':', self.literal(a[2], True)]
        return [self.literal(a[0], True), ':', self.literal(a[1], True), '--' + at.form, '%d' % a[2]]

    def destination(self, f, append):
        if not f:
            return []
        return [f] + (['--append'] if append else ['--new'] if self.s.boolean() else [])

    def record(self, name, r):
        s = self.s
        t, o = r['type'], r['opt']
        toks = ['recorder', name, t, r['id']]
        if t == 'structcost':
            how = o['structcost-type']
            toks.append('--' + how)
            if how == 'npv':
                v = r['at'].args
                step = v[1] - v[0] if len(v) > 1 else s.integer(1, 5)
                toks += ['%d' % v[0], ':', '%d' % step, ':', '%d' % (v[-1] + s.integer(1, step)), self.literal(o['discount-rate'], True)]
            elif how == 'annual':
                toks += self.options(r['cols'][0], r['cols'][1], 'mean_x', 'sd_ln_x')
        if r['at'] and o.get('structcost-type') != 'npv':
            toks.append(lambda: self.at(r['at']))
        if r['cols'] and o.get('structcost-type') != 'annual':
            toks.append('--cols')
            cols = r['cols']
            if s.chance(1, 6):
                toks.append(lambda: [self.variable(list(cols))])
            elif not any(isinstance(c, str) for c in cols) and s.chance(1, 4):
                toks.append('$(%r)' % cols)
            else:
                for i, c in enumerate(cols):
                    toks += ([','] if i else []) + [c if isinstance(c, str) else '%d' % c if isinstance(c, int) else self.literal(c, True)]
        if o.get('normalise'):
            toks.append('--normalise')
        self.command(*toks, self.destination(o.get('filename'), o.get('append')))

    # ---- layout
    def space(self, must):
        s = self.s
        k = s.weighted([20, 3, 1, 1])
        if k == 0:
            return ' ' if must or s.chance(1, 3) else ''
        if k == 1:
            return s.pick(['  ', '\t', '\n', ' \n    ', '\r\n'])
        if k == 2:
            return ' # %s\n' % s.pick(['note', '; print message "x"', "it's", '$(1', '"', '[', ''])
        return '\n#\n '

    def text(self):
        out = ''
        if self.s.chance(1, 4):
            out = '#! slat\n'
        for toks in self.commands:
            last = ';'
            for t in toks + [';']:
                must = not (t in GLUE or last in GLUE)
                out += self.space(must) + t
                last = t
        return out + self.space(False)

    def split(self):
        self.parts.append(self.text())
        self.commands = []
        self.vars = {}

    def finish(self):
        self.split()
        return self.parts


def check_world(s, w, deep=True):
    """every object answers as the reference does"""
    ref = Ref(w)
    for k in KINDS:
        ids = set(getattr(w, k))
        have = set(getattr(pyslat, k).defs)
        check(ids <= have, lambda: 'missing %s: %s' % (k, ids - have))
    for id in w.detfn:
        o = pyslat.detfn.lookup(id)
        for x in (0.13, 0.9, 2.4):
            eq(o.ValueAt(x), ref.fn(id, x), 1e-9, 1e-9, 'value of %s at %g' % (id, x))
    for id in w.probfn:
        o = pyslat.probfn.lookup(id)
        for x in (0.4, 1.3):
            d = ref.prob(id, x)
            eq(o.Median(x), d.median(), 1e-7, 0, 'median of %s at %g' % (id, x))
            eq(o.SD_ln(x), d.sigma, 1e-7, 1e-9, 'dispersion of %s at %g' % (id, x))
    for id in w.im:
        o = pyslat.im.lookup(id)
        for x in (0.3, 0.8, 1.7):
            eq(o.getlambda(x), ref.rate(id, x), 1e-9, 0, 'rate of %s at %g' % (id, x))
            eq(o.pCollapse(x), ref.pC(id, x), 1e-7, 1e-12, 'probability of collapse at %g' % x)
            eq(o.pDemolition(x), ref.pD(id, x), 1e-7, 1e-12, 'probability of demolition at %g' % x)
    for id in w.edp:
        o = pyslat.edp.lookup(id)
        d = ref.demand(id, 1.1)
        eq(o.Mean(1.1), d.mean(), 1e-7, 0, 'mean of demand %s' % id)
        eq(o.SD(1.1), d.sd(), 1e-6, 0, 'standard deviation of demand %s' % id)
        check(o.get_IM().id() == ref.im_of(id), 'intensity of %s' % id)
    for id in w.fragfn:
        o = pyslat.fragfn.lookup(id)
        y = ref.onsets(id)[-1].median()
        got = list(o.pExceeded(y))
        want = ref.exceeded(id, y)
        check(len(got) == len(want), 'states of %s' % id)
        for a, b in zip(got, want):
            eq(a, b, 1e-6, 1e-12, 'probability of reaching a state of %s at %g' % (id, y))
    for id in w.compgroup:
        o = pyslat.compgroup.lookup(id)
        g = w.compgroup[id]
        y = ref.onsets(g['frag'])[0].median() * 1.7
        if sum(ref.highest(g['frag'], y)) > 1 + 1e-12:
            continue
        for what, e, sd in (('cost', o.E_Cost_EDP, o.SD_ln_Cost_EDP), ('delay', o.E_Delay_EDP, o.SD_ln_Delay_EDP)):
            m, q = ref.loss_edp(id, what, y)
            eq(e(y), m, 1e-6, 1e-300, 'mean %s of %s at demand %g' % (what, id, y))
            if m > 0:
                eq(math.expm1(sd(y) ** 2), q / m ** 2 - 1, 1e-5, 1e-8 * q / m ** 2, 'squared variation of the %s of %s at demand %g' % (what, id, y))
    for id in w.structure:
        o = pyslat.structure.lookup(id)
        full = ref.full_struct(id)
        for f, d in (('rebuild', o.getRebuildCost()), ('demolition', o.getDemolitionCost())):
            want = ref.fate(id, f)
            eq(d.mean(), want.mean(), 1e-9, 0, 'mean %s cost of %s' % (f, id))
            eq(d.sd_ln(), want.sigma, 1e-7, 1e-9, 'dispersion of the %s cost of %s' % (f, id))
        if deep:
            agree.values(s, lambda: record_moments(o.TotalCost(1.2)), list(ref.total(id, 1.2)), 1e-2, [1e-6 * full, 1e-6 * full ** 2], 'total cost of %s' % id)


def record_moments(d):
    return [d.mean(), d.mean() ** 2 + d.sd() ** 2]


def script_recorder(s, w):
    """a recorder that the language can express"""
    r = record.gen_recorder(s, w)
    if r['type'] in ('totalcost',):
        r['cols'] = None
    if r['type'] == 'structcost' and r['opt']['structcost-type'] == 'annual':
        r['cols'] = [s.pick(['mean_x', 'median_x', 'mean_ln_x']), s.pick(['sd_ln_x', 'sd_x'])]
    return r


FILES = ['one', 'two.txt', 'three.out.dat', 'sub/four', './five', 'sub/s1x.csv', '_6', 'x.2']


def find_table(text, rows, what):
    """a table among other lines of the standard output"""
    lines = text.split('\n')
    n = len(rows)
    err = None
    for i in range(len(lines) - n + 1):
        if ''.join(lines[i].split()) == ''.join(rows[0]):
            try:
                record.compare('\n'.join(lines[i:i + n]) + '\n', rows, what)
                return
            except Fail as f:
                err = f
    raise err or Fail('%s: no such table in the output: %s' % (what, rows[0]))


def gen_message(s):
    n = s.integer(0, 12)
    return ''.join(s.pick(list('abz 019.,;:#$()[]{}\'"\\/-_=+*%\n\t\u00e9\u03bb')) for _ in range(n))


TAG = {'detfn': 'Deterministic Function', 'probfn': 'robabilistic function', 'im': 'ntensity measure', 'edp': 'emand', 'fragfn': 'ragility', 'lossfn': 'oss', 'compgroup': 'omponent'}


@prop('c21_model', 'random buildings written as one or two scripts (numbers as literals of any form, variables, Python expressions; options left out where they are the default; random spacing, line ends and comments; later '
      'definitions replacing earlier ones), with recorders, messages, titles and printed objects: every object against the reference, every file and table against direct queries; '
      'non-trivial: a structure, a recorder, and a variable or expression')
def whole(s):
    with Scratch():
        os.mkdir('sub')
        w = gen_building(s, 3, 3, compound=False, nocost=False)
        p = Script(s)
        out = None
        if s.chance(1, 3):
            out = s.pick(['res', 'res/deep', './r_1'])
            p.command('outputdir', out)
        p.command('log', '--nostderr') if s.chance(1, 4) else None
        titles, plain = [], {}      # files written by print: path -> text
        recs, blocks = {}, {}
        tables = []
        order = list(dict.fromkeys(w.order))
        cut = s.draw(len(order)) if s.chance(1, 4) else -1
        marks = []

        def message():
            v = s.weighted([4, 1, 1, 1])
            if v == 0:
                m = gen_message(s)
                tok = p.string(m)
                p.command('print', 'message', tok, *dest(m))
                return
            val = s.pick([1.5, 3, [1.0, 2.5], -0.25])
            if v == 1:
                p.command('print', 'message', '$(%r)' % val, *dest('%s' % val))
            elif v == 2:
                d = dest('%s' % val)
                p.command('print', 'message', lambda: [p.variable(val)], *d)
            else:
                p.command('print', 'message', *dest(''))

        def dest(m):
            f = s.pick(['msg', 'sub/msg.txt', 'm_2', None])
            if f is None:
                marks.append(m)
                return []
            append = s.boolean()
            plain[f] = (plain.get(f, '') if append else '') + m + '\n'
            return [f] + (['--append'] if append else ['--new'] if s.boolean() else [])

        for i, (kind, id) in enumerate(order):
            if s.chance(1, 10):
                t = gen_message(s).replace('\n', ' ')
                titles.append(t)
                p.command('title', p.string(t))
            if s.chance(1, 6):
                message()
            p.define(w, kind, id)
            if i == cut:
                p.split()
                titles = []
                s.label('two files')
        for i in range(s.pick([0, 0, 1, 2])):
            id = s.pick(list(w.detfn))
            f = w.detfn[id]
            k = s.real(0.6, 1.5)
            w.detfn[id] = (f[0], [f[1][0], [r5(y * k) for y in f[1][1]]] if f[0] in ('linear', 'loglog') else [r5(f[1][0] * k)] + f[1][1:])
            p.define(w, 'detfn', id)
            s.label('redefinition')
        for i in range(s.integer(0, 3)):
            r = script_recorder(s, w)
            if s.chance(3, 4):
                r['opt']['filename'] = s.pick(FILES)
                r['opt']['append'] = s.boolean()
            recs['rec.%d' % i] = r
            p.record('rec.%d' % i, r)
            s.label(r['type'] + (' ' + r['opt']['structcost-type'] if r['type'] == 'structcost' else ''))
        if titles and s.boolean():
            p.command('print', 'title', 'ttl')
            want_title = list(titles)
        else:
            want_title = None
        shown = []
        for kind in TAG:
            if s.chance(1, 8):
                id = s.pick(list(getattr(w, kind)))
                p.command('print', kind, id, 'show', '--append')
                shown.append((kind, id))
        runs = s.integer(1, 2) if recs else 0
        for i in range(runs):
            p.command('analyze')
        texts = p.finish()
        s.desc('\n---\n'.join(texts))
        got = interp.run(*texts)
        check_world(s, w, s.chance(1, 3))
        check(list(pyslat.recorder.defs) == list(recs), lambda: 'recorders %s, expected %s' % (list(pyslat.recorder.defs), list(recs)))
        files = {}
        for i in range(runs):
            for name, r in recs.items():
                rows = record.heading(record.expected(w, r))
                f = r['opt'].get('filename')
                if f:
                    q = os.path.normpath(record.path_of(out, f))
                    files[q] = (files.get(q, []) if r['opt'].get('append') else []) + rows
                else:
                    find_table(got, rows, 'recorder %s' % name)
        for q in files:
            record.compare(open(q).read(), files[q], q)
        for q, t in plain.items():
            check(open(q, newline='').read() == t, lambda: 'messages in %s: %r, expected %r' % (q, open(q).read(), t))
        pos = 0
        for m in marks:
            k = got.find(m + '\n', pos)
            check(k >= 0, lambda: 'message %r is missing from the output' % m)
            pos = k + len(m)
        if want_title is not None:
            l = [x for x in open('ttl').read().split('\n')]
            check([x for x in l if x] == [x for x in want_title if x], lambda: 'titles %r, expected %r' % (l, want_title))
        if shown:
            t = open('show').read()
            for kind, id in shown:
                check(re.search(r"'%s'" % re.escape(id), t), lambda: '%s %s is not described in %r' % (kind, id, t))
        there = set()
        for d, _, l in os.walk('.'):
            there |= {os.path.normpath(os.path.join(d, f)) for f in l}
        want = set(files) | {os.path.normpath(f) for f in plain} | ({'ttl'} if want_title is not None else set()) | ({'show'} if shown else set())
        check(there == want, lambda: 'files %s, expected %s' % (sorted(there), sorted(want)))
        if recs and p.used:
            s.nontrivial()


WORD = {'binary': 'BINARY_SUBDIVISION', 'revbin': 'REVERSE_BINARY_SUBDIVISION', 'lowrev': 'LOW_FIRST_REVERSE_BINARY_SUBDIVISION', 'scattered': 'SCATTERED', 'directed': 'DIRECTED'}


@prop('c21_integration', 'random sequences of integration commands (all search methods, limits given in three ways): a result computed afterwards is exactly that under the same settings made directly; non-trivial: a method other than the default')
def integration(s):
    with Scratch():
        w = World()
        im = gen_im(s, w, Names(s), 1)
        p = Script(s)
        tol, limit, search, method = 1e-3, 2048, 2048, 'directed'
        for kind, id in w.order:
            p.define(w, kind, id)
        for i in range(s.integer(1, 3)):
            tol, limit = r5(s.logreal(1e-6, 1e-2)), s.integer(32, 4000)
            toks = ['integration', 'maq', lambda t=tol: p.number(t), lambda l=limit: [p.integer(l)]]
            if s.chance(3, 4):
                method, search = s.pick(list(WORD)), s.integer(32, 4000)
                toks += [method, lambda l=search: [p.integer(l)]]
            p.command(*toks)
        if s.boolean():
            p.command('intstats', 'reset')
        texts = p.finish()
        s.desc('\n---\n'.join(texts))
        interp.run(*texts)
        o = pyslat.im.lookup(im)
        a = o.CollapseRate()
        pyslat.Reset_Statistics()
        model.use((getattr(pyslat.INTEGRATION_METHOD, WORD[method]), tol, limit, search))
        b = o.CollapseRate()
        eq(a, b, 0, 0, 'rate of collapse under the settings of the script')
        model.use((getattr(pyslat.INTEGRATION_METHOD, WORD[method]), tol, limit, search))
        eq(o.CollapseRate(), a, 0, 0, 'the rate again')
        if method != 'directed':
            s.nontrivial()


@prop('c21_malformed', 'random scripts with one error (a token missing, doubled, misspelt or out of place, an open bracket, string or expression, a stray character, an undefined name in any position, a wrong number of '
      'parameters): the interpreter raises an exception and no recorder writes a file; non-trivial: always')
def malformed(s):
    with Scratch():
        w = gen_building(s, 2, 2, compound=False, nocost=False)
        p = Script(s)
        for kind, id in dict.fromkeys(w.order):
            p.define(w, kind, id)
        r = script_recorder(s, w)
        r['opt']['filename'] = 'out'
        p.record('r', r)
        n = len(p.commands)
        p.command('analyze')
        k = s.draw(n)
        c = p.commands[k]
        words = [i for i in range(1, len(c)) if re.match(r'[A-Za-z_.]', c[i]) and not re.match(r'[.0-9]', c[i])]
        ok = False
        what = s.pick(['no semicolon', 'keyword', 'undefined', 'undefined', 'undefined', 'missing', 'bracket', 'comma', 'character', 'expression', 'string', 'surplus', 'python', 'variable', 'variable'])
        tail = ''
        if what == 'no semicolon':
            p.commands[k:k + 2] = [c + p.commands[k + 1]]
            ok = True
        elif what == 'keyword':
            c[0] = s.pick([c[0] + 's', c[0].upper(), c[0][:-1], 'define', '--' + c[0]])
            ok = True
        elif what == 'undefined' and c[0] not in ('set', 'detfn', 'fragfn', 'lossfn'):
            refs = {'probfn': [3, 5], 'im': [2], 'edp': [2, 3], 'collapse': [1], 'demolition': [1], 'rebuildcost': [1], 'demolitioncost': [1], 'recorder': [3], 'compgroup': [2, 3, 4], 'structure': list(range(2, len(c), 2))}[c[0]]
            i = s.pick(refs)
            old = c[i]
            if s.boolean():
                c[i] = s.pick(['nothing', old + 'x', 'X' + old])
            else:
                # the name of an object of another kind
                here = {x for q in KINDS for x in getattr(w, q)}
                want = {'probfn': 'detfn', 'im': 'detfn', 'edp': 'im' if i == 2 else 'probfn', 'collapse': 'im', 'demolition': 'im', 'rebuildcost': 'structure', 'demolitioncost': 'structure',
                        'compgroup': {2: 'edp', 3: 'fragfn', 4: 'lossfn'}.get(i), 'structure': 'compgroup', 'recorder': record.FUNCTION.get(c[2])}[c[0]]
                c[i] = s.pick(sorted(here - set(getattr(w, want))))
            if old.startswith('$') and c[i].startswith('$'):
                c[i] = '$nothing'
            ok = True
        elif what == 'missing' and len(c) > 2:
            # a name that every command of this kind needs
            i = s.pick({'probfn': [1, 2, 3, 4, 5], 'im': [1, 2], 'edp': [1, 2, 3], 'compgroup': [1, 2, 3], 'structure': [1], 'recorder': [1, 2, 3], 'detfn': [1, 2], 'lossfn': [1, 2], 'fragfn': [1]}.get(c[0], [1]))
            del c[i]
            ok = c[0] != 'structure' or ',' in c
            ok = ok and not (c[0] == 'compgroup' and len([t for t in c if re.match(r'[A-Za-z_.]', t) and not re.match(r'\.?[0-9]', t)]) > 5)
        elif what == 'bracket' and '[' in c:
            i = s.pick([j for j, t in enumerate(c) if t in '[]'])
            if s.boolean():
                del c[i]
            else:
                c.insert(i, c[i])
            ok = c[0] != 'set'
        elif what == 'comma' and ',' in c:
            i = s.pick([j for j, t in enumerate(c) if t == ','])
            if s.boolean():
                del c[i]
            else:
                c.insert(i, ',')
            ok = c[0] != 'recorder' or c.count(',') > 0 and c[i] == ','
            ok = True
        elif what == 'character':
            i = s.integer(0, len(c))
            c.insert(i, s.pick(['@', '&', '?', '!', '%', '^', '`', '|', '~', '<', '=', '\u00e9']))
            ok = True
        elif what == 'expression':
            tail = s.pick(['print message $(1 + 2;', 'print message $(1));', 'set x $(1, ;', 'print message $1;'])
            ok = True
        elif what == 'variable':
            used = [(a, j) for a, b in enumerate(p.commands) for j, t in enumerate(b) if re.match(r'\$[A-Za-z_.]', t)]
            if used and s.boolean():
                a, j = s.pick(used)
                p.commands[a][j] = s.pick(['$nothing', p.commands[a][j] + 'x', '$X' + p.commands[a][j][1:]])
            else:
                tail = s.pick(['print message $nothing;', 'set x $nothing;', 'print message $_;', 'set x 1; print message $X;', 'set x 1; print message $xx;', 'set y $y;'])
            ok = True
        elif what == 'python':
            tail = s.pick(['print message $(1 +);', 'print message $(nothing);', 'set x $(open("f", "w"));', 'print message $(1/0);', 'set x $(__import__("os"));', 'set x $();'])
            ok = True
        elif what == 'string':
            tail = s.pick(['print message "abc;', "title 'abc;", 'title "abc\\";', "title 'a\\n';", 'title abc;', 'title;'])
            ok = True
        elif what == 'surplus':
            d = s.pick(['detfn zz powerlaw 1.0, 2.0, 3.0', 'detfn zz hyperbolic 1.0, 2.0', 'detfn zz linear 1.0, 2.0', 'detfn zz linear [1.0, 2.0, 3.0], [2.0, 3.0, 4.0]', 'im a b c', 'analyze now', 'analyze 1', 'recorder q detfn',
                        'lossfn zz simple', 'lossfn zz bilevel [1, 2, 3, 4]', 'fragfn zz [1.0, 0.5] --mu sd_ln_x', 'fragfn zz [1.0, 0.5] --mu mean_x --mu mean_x', 'integration maq 1e-5', 'integration maq 1e-5 1024 binary',
                        'integration gauss 1e-5 1024', 'probfn zz normal a, b', 'detfn zz cubic 1.0, 2.0', 'intstats', 'print', 'print everything', 'set x', 'set x [', 'compgroup a b c d', 'recorder q imrate x 1.0:2.0'])
            p.commands.insert(s.draw(n), d.split())
            ok = True
        if not ok:
            raise Discard()
        s.label(what)
        text = p.text() + '\n' + tail + '\n'
        if tail and s.boolean():
            text = tail + '\n' + p.text()
        s.desc(what, text)
        s.nontrivial()
        try:
            interp.run(text)
        except (Exception, SystemExit):
            pass
        else:
            fail('accepted: %s' % what)
        if not tail or what in ('python',) and text.startswith(tail):
            check(not os.path.exists('out.csv'), 'a recorder wrote its file')


if __name__ == '__main__':
    main(reset)
