"""Property-based-testing harness.

Each property module registers sub-checks with @sub(name, strategy, n=...).  The strategy generates plain
JSON data (a "recipe"); the function builds the objects from the recipe with the code in /repo, compares
against an oracle and raises Violation on a mismatch.  Hypothesis drives generation and shrinking; the shrunk
recipe is the replay file, and replaying bypasses hypothesis altogether.

Exit status: 0 property held on everything explored; 1 VIOLATION; anything else: error of the check.
"""
import hashlib
import contextlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

import numpy as np


class Violation(Exception):
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


def require(cond, msg='', sig=None):
    if not cond:
        raise Violation(msg, sig)


def _dense(a):
    if hasattr(a, 'toarray'):
        a = a.toarray()
    return np.asarray(a)


def close(a, b, msg='', tol=1e-7, scale=None, sig=None):
    """a == b elementwise, with an absolute tolerance of tol * scale, scale derived from the reference b"""
    a = _dense(a)
    b = _dense(b)
    if a.dtype == object or b.dtype == object:
        a = a.astype(float)
        b = b.astype(float)
    if a.shape != b.shape:
        raise Violation('%s: shape %s, expected %s' % (msg, a.shape, b.shape), sig)
    if a.size == 0:
        return
    if scale is None:
        scale = max(1e-300, float(np.abs(b[np.isfinite(b)]).max()) if np.isfinite(b).any() else 1.0)
        scale = max(scale, 1e-9)
    err = np.abs(a - b)
    bad = ~(err <= tol * scale)
    if bad.any():
        i = tuple(int(q[0]) for q in np.nonzero(np.atleast_1d(bad)))
        raise Violation('%s: got %r, expected %r (at %s of shape %s; %d of %d entries off)' % (
            msg, np.atleast_1d(a)[i], np.atleast_1d(b)[i], i, a.shape, int(bad.sum()), a.size), sig)


def equal(a, b, msg='', sig=None):
    a = _dense(a)
    b = _dense(b)
    if a.shape != b.shape:
        raise Violation('%s: shape %s, expected %s' % (msg, a.shape, b.shape), sig)
    if not (a == b).all():
        bad = np.nonzero(np.atleast_1d(a != b))
        i = tuple(int(q[0]) for q in bad)
        raise Violation('%s: got %r, expected %r (at %s, %d differ)' % (
            msg, np.atleast_1d(a)[i], np.atleast_1d(b)[i], i, len(bad[0])), sig)


def raises(exc, fn, msg=''):
    try:
        fn()
    except exc:
        return
    raise Violation('%s: expected %s' % (msg, getattr(exc, '__name__', exc)))


class Rec(object):
    """What one case tells the harness about itself"""
    def __init__(self):
        self.nontrivial = False
        self.labels = []
        self.known = []

    def nt(self, flag=True):
        self.nontrivial = bool(flag) or self.nontrivial

    def label(self, *names):
        self.labels.extend(str(n) for n in names)


class Sub(object):
    def __init__(self, name, strategy, fn, n, thorough, shards):
        self.name, self.strategy, self.fn, self.n = name, strategy, fn, n
        self.thorough = thorough
        self.shards = shards


class Property(object):
    def __init__(self, pid, rule, assumptions=()):
        self.id = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.subs = []

    def sub(self, name, strategy, n=100, thorough=20, shards=None):
        def deco(fn):
            self.subs.append(Sub(name, strategy, fn, n, thorough, shards))
            return fn
        return deco


# ----------------------------------------------------------------------------------------------------------

def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def seed_of(*parts):
    h = hashlib.blake2b('/'.join(str(p) for p in parts).encode(), digest_size=8).digest()
    return int.from_bytes(h, 'big')


class Deadline(Exception):
    pass


@contextlib.contextmanager
def deadline(seconds=int(os.environ.get('VERIF_CASE_LIMIT', '150'))):
    """a case takes milliseconds; one that runs for minutes does not end"""
    def stop(*_):
        raise Deadline('the case did not end within %d s' % seconds)
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def run_case(sub, case, known_sigs=()):
    """Execute a single case; returns (rec, violation message or None)"""
    rec = Rec()
    rec.case = case
    np.random.seed(seed_of(canon(case)) % (2 ** 32))
    try:
        with np.errstate(all='ignore'), deadline():
            sub.fn(case, rec)
    except (KeyboardInterrupt, MemoryError, SystemExit):
        raise
    except Violation as e:
        if e.sig is not None and e.sig in known_sigs:
            rec.known.append(e.sig)
            return rec, None
        return rec, str(e)
    except Exception as e:
        # an exception on a valid input (or a result the oracle cannot even process) breaks the property too
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d %s' % (os.path.relpath(f.filename, REPO) if f.filename.startswith(REPO + '/') else os.path.basename(f.filename), f.lineno, f.name) for f in reversed(tb[-4:]))
        return rec, 'unexpected %s: %s [%s]' % (type(e).__name__, str(e)[:300], where)
    return rec, None


def _worker(prop, sub, shard, n, seed, budget, out):
    import pickle
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = 45
    known_sigs = load_known(prop.id)[0]

    st = {'eval': 0, 'skipped': 0, 'labels': {}, 'hashes': set(), 'nontrivial': set(), 'samples': [], 'known': {},
          'fail': None, 'error': None}
    t0 = time.time()

    @hypothesis.seed(seed_of(seed, prop.id, sub.name, shard))
    @settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
              phases=(Phase.generate, Phase.shrink), print_blob=False, report_multiple_bugs=False,
              verbosity=hypothesis.Verbosity.quiet)
    @given(sub.strategy)
    def body(case):
        if st['fail'] is None and time.time() - t0 > budget:
            st['skipped'] += 1
            return
        rec, msg = run_case(sub, case, known_sigs)
        st['eval'] += 1
        h = hashlib.blake2b(canon(case).encode(), digest_size=8).digest()
        st['hashes'].add(h)
        for l in rec.labels:
            st['labels'][l] = st['labels'].get(l, 0) + 1
        for s in rec.known:
            st['known'][s] = st['known'].get(s, 0) + 1
        if rec.nontrivial and h not in st['nontrivial']:
            st['nontrivial'].add(h)
            if len(st['samples']) < 2 and len(canon(case)) < 1500:
                st['samples'].append({'sub': sub.name, 'case': case, 'labels': rec.labels[:8]})
        if msg is not None:
            st['fail'] = (case, msg)
            raise Violation(msg)

    try:
        body()
    except Violation:
        pass
    except BaseException as e:
        if st['fail'] is None:
            st['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    st['time'] = time.time() - t0
    with open(out + '.tmp', 'wb') as fh:
        pickle.dump(st, fh)
    os.rename(out + '.tmp', out)


def load_known(pid):
    """Known findings of this property: (set of signatures, list of entries)"""
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return set(), []
    with open(path) as fh:
        data = json.load(fh)
    entries = [e for e in data.get('findings', []) if e['property'] == pid]
    return {e['sig'] for e in entries if e.get('sig')}, entries


def write_replay(pid, sub, case, msg):
    d = os.path.join(HERE, 'replays', pid)
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(canon([sub, case]).encode(), digest_size=6).hexdigest()
    path = os.path.join(d, '%s-%s.json' % (sub, h))
    with open(path, 'w') as fh:
        json.dump({'property': pid, 'sub': sub, 'case': case, 'message': msg}, fh, indent=1)
    return path


def main(prop, tier, seed):
    import multiprocessing as mp
    import pickle
    import shutil
    import tempfile
    t0 = time.time()
    ncpu = max(1, min(8, len(os.sched_getaffinity(0))))
    quick = tier == 'quick'
    budget = 240 if quick else 3 * 3600
    hard = 600 if quick else 4 * 3600
    tmp = tempfile.mkdtemp(prefix='pbt-%s-' % prop.id)
    ctx = mp.get_context('fork')
    only = os.environ.get('VERIF_SUB')
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    jobs = []
    for s in prop.subs:
        if only and only != s.name:
            continue
        # n is the base count; the quick tier runs two or three times as many of the cheap sub-checks
        slow = s.n <= 16 or 'large' in s.name
        total = s.n * (1 if slow else 3 if s.n < 800 else 2) if quick else s.n * s.thorough
        total = max(1, int(total * scale))
        shards = s.shards or max(1, min(8, total // 10))
        if not quick:
            shards = max(shards, min(32, total // 50))
        for k in range(shards):
            n = total // shards + (1 if k < total % shards else 0)
            if n:
                jobs.append((s, k, n))
    # a few saved inputs first: fixed regression inputs bypass generation
    pending = list(enumerate(jobs))
    running = {}
    results = {}
    errors = []
    failed_at = None
    saved_fail = None
    for sub_name, case in saved_cases(prop.id):
        s = next((q for q in prop.subs if q.name == sub_name), None)
        if s is None:
            errors.append('saved input for unknown sub-check %s' % sub_name)
            continue
        rec, msg = run_case(s, case, load_known(prop.id)[0])
        if msg is not None and saved_fail is None:
            saved_fail = (s.name, case, msg)
    n_saved = len(saved_cases(prop.id))
    if saved_fail is not None:
        pending = []
    while pending or running:
        while pending and len(running) < ncpu:
            i, (s, k, n) = pending.pop(0)
            out = os.path.join(tmp, str(i))
            p = ctx.Process(target=_worker, args=(prop, s, k, n, seed, budget, out))
            p.start()
            running[i] = (p, out, s, k)
        time.sleep(0.02)
        for i in list(running):
            p, out, s, k = running[i]
            if not p.is_alive():
                p.join()
                del running[i]
                if os.path.exists(out):
                    with open(out, 'rb') as fh:
                        results[i] = pickle.load(fh)
                    if results[i]['fail'] is not None and failed_at is None:
                        failed_at = time.time()
                        pending = []
                else:
                    errors.append('worker for %s/%d ended with code %s and no result' % (s.name, k, p.exitcode))
        late = failed_at is not None and time.time() - failed_at > 60
        if late or time.time() - t0 > hard:
            for i in list(running):
                p, out, s, k = running.pop(i)
                p.terminate()
                p.join()
                if not late:
                    errors.append('worker for %s/%d did not finish in %d s' % (s.name, k, hard))
            break
    shutil.rmtree(tmp, ignore_errors=True)

    ev = {'evaluations': n_saved, 'skipped_by_time_budget': 0}
    subs, samples, known = {}, [], {}
    distinct = set()
    fails = []
    for i in sorted(results):
        r = results[i]
        s, k, n = jobs[i]
        ev['evaluations'] += r['eval']
        ev['skipped_by_time_budget'] += r['skipped']
        d = subs.setdefault(s.name, {'evaluations': 0, 'nontrivial': set(), 'labels': {}, 'cpu_s': 0})
        d['evaluations'] += r['eval']
        d['nontrivial'] |= r['nontrivial']
        d['cpu_s'] = round(d['cpu_s'] + r['time'], 2)
        for l, c in r['labels'].items():
            d['labels'][l] = d['labels'].get(l, 0) + c
        if sum(1 for q in samples if q['sub'] == s.name) < 2:
            samples.extend(r['samples'][:1])
        for q, c in r['known'].items():
            known[q] = known.get(q, 0) + c
        if r['error']:
            errors.append('%s/%d: %s' % (s.name, k, r['error']))
        if r['fail'] is not None:
            fails.append((s.name,) + r['fail'])
    if saved_fail is not None:
        fails.insert(0, saved_fail)
    for name, d in subs.items():
        distinct |= {(name, h) for h in d['nontrivial']}
        d['nontrivial'] = len(d['nontrivial'])
        d['labels'] = dict(sorted(d['labels'].items(), key=lambda q: -q[1])[:40])

    wall = time.time() - t0
    evidence = {
        'property': prop.id, 'tier': 'quick' if quick else 'thorough', 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': ev['evaluations'],
            'distinct_nontrivial': len(distinct),
            'rule': prop.rule,
            'samples': samples or [{'note': 'no generated case was completed'}],
            'saved_inputs_replayed': n_saved,
            'skipped_by_time_budget': ev['skipped_by_time_budget'],
            'subchecks': subs,
            'excluded_as_known': known,
        },
        'assumptions': prop.assumptions,
        'wall_s': round(wall, 2),
        'violations': len(fails),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop.id + '.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1, default=str)

    # known findings: replay the recorded input of each, and report the ones that still fail
    for e in load_known(prop.id)[1]:
        s = next((q for q in prop.subs if q.name == e['sub']), None)
        if s is None:
            continue
        rec, msg = run_case(s, e['case'], ())
        if msg is not None:
            print('KNOWN-FINDING: property=%s %s' % (prop.id, e['what']))

    total = ' '.join('%s:%d/%d' % (n, d['nontrivial'], d['evaluations']) for n, d in subs.items())
    print('%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs [%s]' % (
        prop.id, tier, seed, ev['evaluations'], len(distinct), wall, total))
    if fails:
        name, case, msg = min(fails, key=lambda f: len(canon(f[1]))) if saved_fail is None else saved_fail
        path = write_replay(prop.id, name, case, msg)
        print('sub-check %s: %s' % (name, msg))
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return 1
    if errors:
        for e in errors:
            print('ERROR', e, file=sys.stderr)
        return 3
    return 0


def saved_cases(pid):
    """Inputs that once failed, committed under /verif/corpus/<id>.json: [[sub, case], ...]"""
    path = os.path.join(HERE, 'corpus', pid + '.json')
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return [(s, c) for s, c in json.load(fh)]


def replay(prop, path):
    with open(path) as fh:
        d = json.load(fh)
    s = next(q for q in prop.subs if q.name == d['sub'])
    rec, msg = run_case(s, d['case'], ())
    if msg is not None:
        print('sub-check %s: %s' % (s.name, msg))
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return 1
    print('replay of %s passes' % path)
    return 0
