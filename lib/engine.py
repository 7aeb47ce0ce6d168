"""Driver shared by every check: builds the harness from /repo's working tree, runs batches of generated cases
in worker processes, isolates crashes and hangs, shrinks and replays failures, and writes the evidence file."""
import concurrent.futures as cf
import json, os, signal, subprocess, sys, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
WORKERS = 8


class Part:
    """One generated property: `quick`/`thorough` are case counts, `batch` the cases per process."""
    def __init__(self, harness, prop, quick, thorough=None, batch=None, conf='plain', omp=1, timeout=150,
                 nondet=False, workers=None, env=None, kind='cpp'):
        self.harness, self.prop, self.quick = harness, prop, quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.batch = batch or max(1, quick // 16)
        self.conf, self.omp, self.timeout, self.nondet = conf, omp, timeout, nondet
        self.workers = workers or WORKERS
        self.env = env or {}
        self.kind = kind


class BuildError(Exception):
    pass


def build(parts):
    todo = sorted({(p.conf, p.harness) for p in parts if p.kind == 'cpp'})
    for conf, harness in todo:
        cmd = ['make', '-s', '-C', os.path.join(VERIF, 'harness'), '-j8', 'BUILD=' + BUILD, 'REPO=' + REPO,
               'CONF=' + conf, 'HARNESS=' + harness]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout[-4000:])
    if any(p.kind == 'py' for p in parts):
        r = subprocess.run(['make', '-s', '-f', 'Makefile.py', '-C', os.path.join(VERIF, 'harness'), '-j8', 'BUILD=' + BUILD,
                            'REPO=' + REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout[-4000:])


def command(part):
    if part.kind == 'cpp':
        return [os.path.join(BUILD, part.conf, part.harness)]
    return ['/usr/bin/python3', '-B', os.path.join(VERIF, 'harness', 'py', part.harness + '.py')]


def environment(part):
    env = dict(os.environ)
    env.update(OMP_NUM_THREADS=str(part.omp), OMP_DYNAMIC='false', OMP_WAIT_POLICY='passive', GOMP_SPINCOUNT='0', LC_ALL='C.UTF-8', PYTHONHASHSEED='0',
               ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1',
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', GSL_RNG_SEED='0')
    env['PBT_KNOWN'] = ','.join(f['key'] for f in known_findings())
    if part.kind == 'py':
        env['PYTHONPATH'] = os.path.join(BUILD, 'py')
        env['LD_LIBRARY_PATH'] = os.path.join(BUILD, 'py')
        env['PYTHONDONTWRITEBYTECODE'] = '1'
    env.update(part.env)
    return env


_known = None


def known_findings(prop=None):
    global _known
    if _known is None:
        p = os.path.join(VERIF, 'known_findings.json')
        _known = json.load(open(p))['findings'] if os.path.exists(p) else []
    return [f for f in _known if prop is None or f['property'] == prop]


_live = set()
_live_lock = threading.Lock()


def execute(part, args, timeout, on_line=None):
    """-> (status, stdout, stderr); status 'ok', 'timeout', or 'crash:<rc>'."""
    p = subprocess.Popen(command(part) + args, env=environment(part), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, cwd=BUILD)
    with _live_lock:
        _live.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
        status = 'ok' if p.returncode == 0 else 'crash:%d' % p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        status = 'timeout'
    finally:
        with _live_lock:
            _live.discard(p)
    return status, out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace')


def read_journal(path):
    import struct
    with open(path, 'rb') as f:
        d = f.read()
    if len(d) < 16:
        return 0, []
    idx, n = struct.unpack_from('<QQ', d, 0)
    n = min(n, (len(d) - 16) // 8)
    return idx, list(struct.unpack_from('<%dQ' % n, d, 16))


class Batch:
    def __init__(self, part, lo, hi):
        self.part, self.lo, self.hi = part, lo, hi


def crash_note(status, err):
    lines = [l for l in err.splitlines() if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'terminate called' in l
             or 'what():' in l or 'Error' in l or 'gsl:' in l]
    return '%s; %s' % (status, ' | '.join(lines[:4]) or err[-300:].replace('\n', ' | '))


def run_batch(part, seed, lo, hi, tag):
    jp = os.path.join(BUILD, 'tmp', 'journal-%d-%s-%s-%d' % (os.getpid(), part.prop, tag, lo))
    try:
        status, out, err = execute(part, ['run', part.prop, str(seed), str(lo), str(hi), jp], part.timeout)
        if status == 'ok':
            try:
                return json.loads(out.splitlines()[-1])
            except Exception:
                status = 'crash:noresult'
        try:
            idx, choices = read_journal(jp)
        except FileNotFoundError:
            idx, choices = lo, []
        res = {'n': max(0, idx - lo + 1), 'discarded': 0, 'nontrivial': [], 'labels': {}, 'samples': [], 'known': {}}
        res['fail'] = {'index': idx, 'msg': crash_note(status, err), 'key': 'hang' if status == 'timeout' else 'crash',
                       'desc': '', 'choices': choices, 'status': status}
        return res
    finally:
        try:
            os.unlink(jp)
        except FileNotFoundError:
            pass


def replay_many(part, cases, timeout, tag='r'):
    """Run each recorded case in turn in one process; returns a list of results up to the first failure."""
    path = os.path.join(BUILD, 'tmp', 'cases-%d-%s-%s-%d' % (os.getpid(), part.prop, tag, threading.get_ident()))
    with open(path, 'w') as f:
        for c in cases:
            f.write(' '.join(map(str, c)) + '\n')
    try:
        status, out, err = execute(part, ['replay', part.prop, path], timeout)
    finally:
        os.unlink(path)
    res = []
    for l in out.splitlines():
        try:
            res.append(json.loads(l))
        except Exception:
            pass
    if status != 'ok' and len(res) < len(cases):
        res.append({'kind': 1, 'msg': crash_note(status, err), 'key': 'hang' if status == 'timeout' else 'crash', 'desc': '',
                    'choices': cases[len(res)]})
    return res


def shrink(part, fail, budget=60):
    """Greedy deletion and lowering of the choice sequence while it still fails."""
    best = list(fail['choices'])
    best_res = fail
    end = time.time() + budget
    if fail.get('key') == 'hang':
        return best_res

    def attempt(cands):
        nonlocal best, best_res
        cands = [c for c in cands if c != best]
        i = 0
        while i < len(cands) and time.time() < end:
            chunk = cands[i:i + 64]
            res = replay_many(part, chunk, 40, 's')
            hit = next((k for k, r in enumerate(res) if r['kind'] == 1 and r['key'] != 'hang'), None)
            if hit is not None:
                new = res[hit]['choices'] if res[hit]['choices'] else chunk[hit]
                if (len(new), new) >= (len(best), best):
                    new = chunk[hit]
                best, best_res = list(new), dict(res[hit], choices=list(new))
                return True
            i += max(1, len(res))
        return False

    progress = True
    while progress and time.time() < end:
        progress = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            while attempt([best[:i] + best[i + size:] for i in range(0, len(best) - size + 1, max(1, size // 2))]):
                progress = True
            size //= 2
        while attempt([best[:i] + [0] + best[i + 1:] for i in range(len(best)) if best[i]]):
            progress = True
        for i in range(len(best)):
            if time.time() > end:
                break
            while i < len(best) and best[i] > 1 and attempt(
                    [best[:i] + [v] + best[i + 1:] for v in (best[i] // 2, best[i] - best[i] // 8, best[i] - 1)]):
                progress = True
                if time.time() > end:
                    break
    return best_res


def confirm(part, seed, batch, fail):
    """Replay in fresh processes before anything is reported."""
    tries = 15 if part.nondet else 3
    hits, last = 0, None
    for _ in range(tries):
        r = replay_many(part, [fail['choices']], 40, 'c')
        if r and r[-1]['kind'] == 1:
            hits += 1
            last = r[-1]
            if last.get('key') == 'hang' and hits == 2:
                hits = 3
        elif not part.nondet:
            break
        if hits >= 3 or (part.nondet and hits):
            break
    if hits >= 3 or (part.nondet and hits):
        return 'case', last
    # not reproducible alone: does the history of the batch reproduce it?
    n = 0
    if fail.get('key') == 'hang':
        r = run_batch(part, seed, batch.lo, batch.hi, 'c')
        return ('range', r['fail']) if r.get('fail') else (None, None)
    for k in range(3):
        r = run_batch(part, seed, batch.lo, batch.hi, 'c%d' % k)
        if r.get('fail'):
            n += 1
            last = r['fail']
        else:
            break
    if n == 3:
        return 'range', last
    return None, None


def run_check(prop, parts, argv):
    t0 = time.time()
    os.makedirs(os.path.join(BUILD, 'tmp'), exist_ok=True)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if '--quick' in argv:
        tier = 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    build(parts)
    if '--replay' in argv:
        return replay_file(prop, parts, argv[argv.index('--replay') + 1])
    tb = time.time() - t0
    deadline = t0 + (600 if tier == 'quick' else 6 * 3600)
    agg = {p.prop: {'n': 0, 'discarded': 0, 'nt': set(), 'labels': {}, 'samples': [], 'known': {}, 'flaky': [], 'time': 0} for p in parts}
    rules = {}
    for p in parts:
        st, out, err = execute(p, ['list'], 60)
        for l in out.splitlines():
            try:
                d = json.loads(l)
            except Exception:
                continue
            rules[d['name']] = d['rule']
        if p.prop not in rules:
            raise BuildError('harness %s has no property %s: %s %s' % (p.harness, p.prop, st, err[-2000:]))
    failures = []
    lock = threading.Lock()
    queue = []
    lists = []
    for p in parts:
        total = p.quick if tier == 'quick' else p.thorough
        lists.append([Batch(p, lo, min(total, lo + p.batch)) for lo in range(0, total, p.batch)])
    for k in range(max(map(len, lists))):           # interleave the parts
        for l in lists:
            if k < len(l):
                queue.append(l[k])
    slots = WORKERS
    cond = threading.Condition()
    state = {'used': 0, 'stop': False}

    def work(b):
        p = b.part
        need = min(WORKERS, max(1, p.omp)) if p.omp > 1 else 1
        need = max(need, WORKERS // p.workers)
        with cond:
            while state['used'] + need > slots and state['used'] > 0:
                cond.wait()
            state['used'] += need
        try:
            if state['stop'] or time.time() > deadline:
                return
            t1 = time.time()
            r = run_batch(p, seed, b.lo, b.hi, 'b')
            with lock:
                agg[p.prop]['time'] += time.time() - t1
            if r.get('fail') and r['fail']['key'] == 'hang':
                q = replay_many(p, [r['fail']['choices']], 60, 'h%d' % b.lo)
                if q and q[-1]['kind'] != 1:        # a slow batch, cut short, not a hanging case
                    r['fail'] = None
                    print('NOTE: %s: cases %d..%d cut short after %d s' % (p.prop, b.lo, b.hi, p.timeout))
        finally:
            with cond:
                state['used'] -= need
                cond.notify_all()
        with lock:
            a = agg[p.prop]
            a['n'] += r['n']
            a['discarded'] += r['discarded']
            a['nt'].update(r['nontrivial'])
            for k, v in r['labels'].items():
                a['labels'][k] = a['labels'].get(k, 0) + v
            for k, v in r.get('known', {}).items():
                a['known'][k] = a['known'].get(k, 0) + v
            if len(a['samples']) < 2:
                a['samples'] += r['samples'][:2 - len(a['samples'])]
            if r.get('fail'):
                failures.append((b, r['fail']))
                if len(failures) >= 4:
                    state['stop'] = True

    with cf.ThreadPoolExecutor(WORKERS) as ex:
        list(ex.map(work, queue))

    violations = []
    failures.sort(key=lambda bf: (bf[1].get('key') == 'hang', len(bf[1]['choices'])))
    for b, f in failures[:4]:
        how, res = confirm(b.part, seed, b, f)
        if not how:
            agg[b.part.prop]['flaky'].append(f['msg'])
            print('NOTE: not reproduced, not reported: %s: %s' % (b.part.prop, f['msg']))
            continue
        if how == 'case':
            res = dict(res)
            res['choices'] = res['choices'] or f['choices']
            if not b.part.nondet:
                res = shrink(b.part, res, 60 if tier == 'quick' else 300)
        violations.append((b, how, res))
        break
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(a['n'] for a in agg.values()),
            'distinct_nontrivial': sum(len(a['nt']) for a in agg.values()),
            'rule': ' || '.join('%s: %s' % (p.prop, rules[p.prop]) for p in parts),
            'samples': ['%s: %s' % (k, s) for k, a in agg.items() for s in a['samples']],
            'parts': {k: {'evaluations': a['n'], 'discarded': a['discarded'], 'distinct_nontrivial': len(a['nt']),
                          'process_s': round(a['time'], 1), 'labels': a['labels'], 'known_findings_hit': a['known'], 'unreproduced': a['flaky']}
                      for k, a in agg.items()},
            'build_s': round(tb, 1),
        },
        'assumptions': [],
        'wall_s': round(time.time() - t0, 1),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rc = 0
    for b, how, res in violations:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, b.part.prop))
        json.dump({'property': prop, 'part': b.part.prop, 'mode': how, 'seed': seed, 'range': [b.lo, b.hi],
                   'choices': res['choices'], 'message': res['msg'], 'case': res.get('desc', ''),
                   'replay_cmd': 'python3 %s/check.py %s --replay %s' % (VERIF, prop, path)}, open(path, 'w'), indent=1)
        print('part %s: %s' % (b.part.prop, res['msg']))
        print('case: %s' % res.get('desc', ''))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    for f in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    c = ev['coverage']
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs (build %.1fs)%s' % (
        prop, tier, seed, c['evaluations'], c['distinct_nontrivial'], ev['wall_s'], tb, '' if rc else ': held'))
    if rc == 0 and any(a['n'] > 0 and not a['nt'] for a in agg.values()):
        print('ERROR: a part generated no non-trivial case')
        return 2
    return rc


def replay_file(prop, parts, path):
    d = json.load(open(path))
    part = next(p for p in parts if p.prop == d['part'])
    if d['mode'] == 'range':
        r = run_batch(part, d['seed'], d['range'][0], d['range'][1], 'x')
        f = r.get('fail')
    else:
        f = None
        for _ in range(15 if part.nondet else 1):
            r = replay_many(part, [d['choices']], 40, 'x')
            if r and r[-1]['kind'] == 1:
                f = r[-1]
                break
    if f:
        print('reproduced: %s\ncase: %s' % (f['msg'], f.get('desc', '')))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('not reproduced')
    return 0


def main(checks):
    if len(sys.argv) < 2 or sys.argv[1] not in checks:
        print('usage: check.py PROPERTY [--quick|--thorough] [--replay FILE]; properties: ' + ' '.join(checks))
        return 2
    prop = sys.argv[1]
    try:
        return run_check(prop, checks[prop], sys.argv[2:])
    except BuildError as e:
        print('ERROR: build failed:\n%s' % e)
        return 2
