"""Choice-sequence property-based testing engine: the Python counterpart of harness/cpp/pbt.h and main.cpp (same protocol)."""
import json, math, mmap, os, random, struct, sys, time, traceback

MAX = 1 << 16


class Fail(Exception):
    def __init__(self, msg, key=''):
        super().__init__(msg)
        self.msg, self.key = msg, key


class Discard(Exception):
    pass


class Journal:
    def __init__(self, path):
        fd = os.open(path, os.O_RDWR | os.O_CREAT, 0o600)
        size = 16 + 8 * MAX
        os.ftruncate(fd, size)
        self.m = mmap.mmap(fd, size)

    def start(self, index):
        struct.pack_into('<QQ', self.m, 0, index, 0)

    def add(self, k, v):
        if k < MAX:
            struct.pack_into('<Q', self.m, 16 + 8 * k, v)
            struct.pack_into('<Q', self.m, 8, k + 1)


journal = None


class Src:
    def __init__(self, rng=None, given=None):
        self.rng, self.given = rng, given
        self.rec = []
        self.notes = []
        self.labels, self.known = set(), set()
        self.is_nontrivial = False

    def draw(self, n):
        n = max(1, n)
        if self.given is not None:
            k = len(self.rec)
            v = min(self.given[k] if k < len(self.given) else 0, n - 1)
        else:
            v = self.rng.randrange(n)
        if journal:
            journal.add(len(self.rec), v)
        self.rec.append(v)
        return v

    def integer(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def size(self, lo, hi, big):
        """usually in [lo, hi], occasionally up to big"""
        return self.integer(lo, big) if self.chance(1, 16) else self.integer(lo, hi)

    def boolean(self):
        return self.draw(2) == 1

    def chance(self, num, den):
        return self.draw(den) >= den - num

    def real(self, lo, hi):
        n = 1 << 20
        k = min(self.draw(n + n // 32), n)
        return hi if k == n else lo + (hi - lo) * (k / n)

    def logreal(self, lo, hi):
        return math.exp(self.real(math.log(lo), math.log(hi)))

    def pick(self, l):
        return l[self.draw(len(l))]

    def weighted(self, w):
        k = self.draw(sum(w))
        for i, x in enumerate(w):
            if k < x:
                return i
            k -= x

    def nontrivial(self):
        self.is_nontrivial = True

    def label(self, l):
        self.labels.add(l)

    def desc(self, *a):
        self.notes.append(' '.join(map(str, a)))

    def text(self):
        t = ' '.join(self.notes)
        return t if len(t) < 4000 else t[:4000] + '...'

    def finding(self, key, msg):
        if key not in os.environ.get('PBT_KNOWN', '').split(','):
            raise Fail(msg, key)
        self.known.add(key)


PROPS = {}


def prop(name, rule):
    def deco(fn):
        PROPS[name] = (rule, fn)
        return fn
    return deco


def fail(msg, key=''):
    raise Fail(msg, key)


def check(ok, msg):
    if not ok:
        raise Fail(msg() if callable(msg) else msg)


def close(a, b, rel, abs_=0.0):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def eq(got, want, rel, abs_, what):
    if not isinstance(got, (int, float)):
        raise Fail('%s: got %r, expected %r' % (what, got, want))
    if not close(got, want, rel, abs_):
        raise Fail('%s: got %r, expected %r (rel %g, abs %g)' % (what, got, float(want), rel, abs_))


def hash_choices(v):
    h = 1469598103934665603
    for x in v:
        h = ((h ^ (x + 0x9E3779B97F4A7C15)) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
        h ^= h >> 29
    return h


def run_one(fn, s, before):
    try:
        if before:
            before()
        fn(s)
        return 0, '', ''
    except Fail as f:
        return 1, f.msg, f.key
    except Discard:
        return 2, '', ''
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = '%s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else ''
        return 1, 'unexpected exception: %s: %s (%s)' % (type(e).__name__, str(e)[:500], where), 'exception'


def main(before=None):
    global journal
    mode = sys.argv[1]
    if mode == 'list':
        for n, (rule, _) in PROPS.items():
            print(json.dumps({'name': n, 'rule': rule}))
        return
    # The code under test prints a lot: keep the real standard output for results only.
    out = os.fdopen(os.dup(1), 'w')
    sys.stdout.flush()
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    sys.stdout = open(os.devnull, 'w')
    rule, fn = PROPS[sys.argv[2]]
    if mode == 'run':
        seed, lo, hi = map(int, sys.argv[3:6])
        journal = Journal(sys.argv[6])
        res = {'n': 0, 'discarded': 0, 'nontrivial': [], 'labels': {}, 'known': {}, 'samples': [], 'fail': None}
        slow = float(os.environ.get('PBT_SLOW', 0))
        for i in range(lo, hi):
            journal.start(i)
            s = Src(rng=random.Random('%d/%s/%d' % (seed, sys.argv[2], i)))
            t0 = time.time()
            kind, msg, key = run_one(fn, s, before)
            if slow and time.time() - t0 > slow:
                sys.stderr.write('slow: case %d took %.1f s: %s\n' % (i, time.time() - t0, s.text()))
            res['n'] += 1
            if kind == 2:
                res['discarded'] += 1
                continue
            for l in s.labels:
                res['labels'][l] = res['labels'].get(l, 0) + 1
            for l in s.known:
                res['known'][l] = res['known'].get(l, 0) + 1
            if s.is_nontrivial:
                res['nontrivial'].append(hash_choices(s.rec))
                if len(res['samples']) < 2 and kind == 0:
                    res['samples'].append(s.text())
            if kind == 1:
                res['fail'] = {'index': i, 'msg': msg, 'key': key, 'desc': s.text(), 'choices': s.rec}
                break
        out.write(json.dumps(res) + '\n')
        out.flush()
    elif mode == 'replay':
        for line in open(sys.argv[3]):
            s = Src(given=list(map(int, line.split())))
            kind, msg, key = run_one(fn, s, before)
            out.write(json.dumps({'kind': kind, 'msg': msg, 'key': key, 'desc': s.text(), 'choices': s.rec}) + '\n')
            out.flush()
    os._exit(0)
