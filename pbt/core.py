"""Runner: sub-check registry, Hypothesis driver, shrinking, replay, evidence.

A sub-check is a strategy that generates JSON-able cases and a body that
raises Violation when the code under test breaks the property on a case.
"""
import argparse
import concurrent.futures as cf
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

from . import env

import numpy as np
from hypothesis import given, settings, seed as hyp_seed, HealthCheck, Phase

try:    # Hypothesis re-plays parts of earlier cases in up to half of the calls
    # (to make two numbers equal, say); a few dozen cases reach further when
    # each is drawn afresh.  Shrinking is not affected.
    from hypothesis.internal.conjecture.engine import ConjectureRunner
    if hasattr(ConjectureRunner, 'generate_mutations_from'):
        ConjectureRunner.generate_mutations_from = lambda self, data: None
except ImportError:
    pass

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT = 150      # s; one case costs milliseconds to ~2 s when correct
SHRINK_LIMIT = 20     # s
BUDGET = {'quick': 150, 'thorough': 3000}   # s per worker task, then stop


class Violation(Exception):
    """The code under test broke the property on this case."""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class Hang(BaseException):
    pass


class Sub(object):
    def __init__(self, pid, name, strategy, body, quick, thorough, rule,
                 shards):
        self.pid, self.name, self.strategy = pid, name, strategy
        self.body, self.quick, self.thorough = body, quick, thorough
        self.rule, self.shards = rule, shards


REG = {}


def sub(pid, name, strategy, quick, thorough=None, rule='', shards=1):
    """Register a sub-check; quick/thorough are total numbers of cases."""
    def deco(body):
        REG.setdefault(pid, []).append(
            Sub(pid, name, strategy, body, quick,
                thorough or quick * 20, rule, shards))
        return body
    return deco


class Ev(object):
    """Per-case observations made by a body."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def label(self, *names):
        self.labels.extend(names)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


# ---------------------------------------------------------------- target calls
def from_target(exc):
    """True if the exception was raised below a call into allantools."""
    tb = exc.__traceback__
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(env.AT_DIR + os.sep):
            return True
        tb = tb.tb_next
    return False


def call(fn, *args, **kw):
    """Call the code under test; unexpected exceptions are violations.

    allow=(ExcType, ...) lists exceptions returned (not raised) to the body.
    """
    allow = kw.pop('allow', ())
    what = kw.pop('what', getattr(fn, '__name__', str(fn)))
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings(), \
                np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            return fn(*args, **kw)
    except allow as exc:
        return exc
    except Hang:
        raise Violation('%s did not return within %d s' % (what, CASE_LIMIT))
    except MemoryError:
        raise
    except Exception as exc:
        raise Violation('%s raised %s: %s' % (what, type(exc).__name__, exc))


def require(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


def as_array(obj, what):
    try:
        arr = np.asarray(obj, dtype=float)
    except (TypeError, ValueError):
        raise Violation('%s is not numeric: %r' % (what, obj))
    return arr


# ---------------------------------------------------------------- cases
def canon(case):
    return json.dumps(case, sort_keys=True)


def load_findings():
    """known_findings.txt -> {(property, key): description}"""
    out = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: '):
                f = line.split(None, 3)
                pid = f[1].split('=', 1)[1]
                key = f[2].split('=', 1)[1]
                out[(pid, key)] = f[3].strip()
    return out


class Outcome(object):
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.known = {}
        self.violation = None      # (size, case, message)
        self.inconclusive = False
        self.error = None
        self.wall = 0.0


def _alarm(signum, frame):
    raise Hang()


def misshapen(exc):
    """a comparison failed because a result has another length or form."""
    return (isinstance(exc, IndexError) or
            isinstance(exc, (ValueError, TypeError)) and
            any(w in str(exc) for w in ('broadcast', 'shape', 'unpack',
                                        'not iterable', 'ambiguous')))


def run_case(sb, case, o, findings):
    """One evaluation. Returns the Violation (unlisted) or None."""
    ev = Ev()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    viol = None
    try:
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            np.random.seed(20220101)
            sb.body(case, ev)
    except Violation as exc:
        viol = exc
    except Hang:
        viol = Violation('case did not finish within %d s' % CASE_LIMIT)
    except Exception as exc:
        if from_target(exc):
            viol = Violation('unexpected %s: %s' % (type(exc).__name__, exc))
        elif misshapen(exc):
            viol = Violation('a result of unexpected shape could not be '
                             'compared: %s: %s' % (type(exc).__name__, exc))
        else:
            raise
    finally:
        signal.alarm(0)
    o.evaluations += 1
    for lb in ev.labels:
        o.labels[lb] = o.labels.get(lb, 0) + 1
    if ev.nontrivial:
        o.nontrivial.add(hashlib.md5(canon(case).encode()).hexdigest()[:12])
        if len(o.samples) < 3 and len(canon(case)) < 1500:
            o.samples.append(case)
    if viol is not None and viol.key is not None:
        if (sb.pid, viol.key) in findings:
            o.known[viol.key] = o.known.get(viol.key, 0) + 1
            return None
    return viol


_STOP = None


def run_task(args):
    """Worker: one shard of one sub-check."""
    pid, name, n, sd, budget, corpus = args
    sb = [s for s in REG[pid] if s.name == name][0]
    o = Outcome()
    t0 = time.monotonic()
    findings = load_findings()
    state = {'fail_at': None}

    def note(case, viol):
        size = len(canon(case))
        if o.violation is None or size < o.violation[0]:
            o.violation = (size, case, str(viol))

    try:
        for case in corpus:
            v = run_case(sb, case, o, findings)
            if v is not None:
                note(case, v)
                o.wall = time.monotonic() - t0
                if _STOP is not None:
                    _STOP.set()
                return o

        @hyp_seed(sd)
        @settings(max_examples=n, database=None, deadline=None,
                  suppress_health_check=list(HealthCheck),
                  report_multiple_bugs=False, print_blob=False,
                  phases=(Phase.generate, Phase.shrink))
        @given(sb.strategy)
        def prop(case):
            now = time.monotonic()
            if state['fail_at'] is not None:
                if now - state['fail_at'] > SHRINK_LIMIT:
                    return
            elif now - t0 > budget or (_STOP is not None and _STOP.is_set()):
                o.inconclusive = True
                return
            # round trip through JSON, so a replay sees the very same case
            case = json.loads(canon(case))
            v = run_case(sb, case, o, findings)
            if v is not None:
                if state['fail_at'] is None:
                    state['fail_at'] = time.monotonic()
                note(case, v)
                raise v

        try:
            with contextlib.redirect_stdout(io.StringIO()), \
                    contextlib.redirect_stderr(io.StringIO()):
                prop()
        except BaseException as exc:
            if o.violation is None:
                if isinstance(exc, KeyboardInterrupt):
                    raise
                o.error = ''.join(traceback.format_exception(
                    type(exc), exc, exc.__traceback__))[-4000:]
    except Exception:
        o.error = traceback.format_exc()[-4000:]
    if o.violation is not None and _STOP is not None:
        _STOP.set()
    o.wall = time.monotonic() - t0
    return o


# ---------------------------------------------------------------- main
def load_checks(pid):
    importlib.import_module('pbt.checks.' + pid.lower())
    return REG[pid]


def load_corpus(pid):
    path = os.path.join(ROOT, 'corpus', pid + '.json')
    if not os.path.exists(path):
        return {}
    out = {}
    for item in json.load(open(path)):
        out.setdefault(item['sub'], []).append(item['case'])
    return out


def replay(path):
    rec = json.load(open(path))
    pid = rec['property']
    load_checks(pid)
    sb = [s for s in REG[pid] if s.name == rec['sub']][0]
    o = Outcome()
    v = run_case(sb, rec['case'], o, load_findings())
    if v is not None:
        print('%s/%s: %s' % (pid, sb.name, v))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('replay of %s: property %s holds on this case' % (path, pid))
    return 0


def selftest():
    """Every registered check imports and has usable generators."""
    man = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
    n = 0
    for c in man['checks']:
        n += len(load_checks(c['property']))
        load_corpus(c['property'])
    print('%d properties, %d sub-checks, allantools from %s'
          % (len(man['checks']), n, env.AT_DIR))
    return 0


def main(argv):
    global _STOP
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='one sub-check (development)')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args(argv)
    try:
        if a.selftest:
            return selftest()
        if a.replay:
            return replay(a.replay)
        tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
        return run(a.pid, tier, a)
    except Exception:
        traceback.print_exc()
        print('harness error')
        return 2


def run(pid, tier, a):
    global _STOP
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    subs = load_checks(pid)
    if a.only:
        subs = [s for s in subs if s.name == a.only]
    corpus = load_corpus(pid)
    ncpu = max(1, min(8, os.cpu_count() or 1))
    ctx = mp.get_context('fork')
    _STOP = ctx.Event()
    tasks = []
    for sb in subs:
        total = sb.quick if tier == 'quick' else sb.thorough
        total = max(1, int(total * a.scale))
        shards = sb.shards if tier == 'quick' else max(sb.shards, ncpu)
        shards = max(1, min(shards, total))
        for i in range(shards):
            n = total // shards + (1 if i < total % shards else 0)
            sd = (seed * 1000003 + zlib.crc32(sb.name.encode()) * 31
                  + i * 7919) % (2 ** 63)
            tasks.append((pid, sb.name, n, sd, BUDGET[tier],
                          corpus.get(sb.name, []) if i == 0 else []))
    # long tasks first
    results = []
    with cf.ProcessPoolExecutor(max_workers=ncpu, mp_context=ctx) as ex:
        futs = [(t, ex.submit(run_task, t)) for t in tasks]
        for t, f in futs:
            results.append((t, f.result()))
    return report(pid, tier, seed, subs, results, t0, a)


def report(pid, tier, seed, subs, results, t0, a):
    findings = load_findings()
    rc = 0
    errors = [(t[1], o.error) for t, o in results if o.error]
    best = {}
    per = {}
    for t, o in results:
        d = per.setdefault(t[1], {'evaluations': 0, 'nt': set(), 'labels': {},
                                  'inconclusive': False, 'samples': [],
                                  'wall_s': 0.0, 'known': {}})
        d['evaluations'] += o.evaluations
        d['nt'] |= o.nontrivial
        for k, v in o.labels.items():
            d['labels'][k] = d['labels'].get(k, 0) + v
        for k, v in o.known.items():
            d['known'][k] = d['known'].get(k, 0) + v
        d['inconclusive'] |= o.inconclusive
        d['samples'] = (d['samples'] + o.samples)[:2]
        d['wall_s'] += o.wall
        if o.violation is not None:
            cur = best.get(t[1])
            if cur is None or o.violation[0] < cur[0]:
                best[t[1]] = o.violation
    for (p, key), desc in sorted(findings.items()):
        if p == pid:
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, key, desc))
    nviol = 0
    for name, (size, case, msg) in sorted(best.items()):
        rdir = os.path.join(ROOT, 'replays')
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.md5((name + canon(case)).encode()).hexdigest()[:8]
        path = os.path.join(rdir, '%s-%s-%s.json' % (pid, name, h))
        with open(path, 'w') as fp:
            json.dump({'property': pid, 'sub': name, 'case': case,
                       'message': msg, 'seed': seed}, fp, indent=1)
        print('%s/%s: %s' % (pid, name, msg[:1500]))
        print('  case: %s' % canon(case)[:1500])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        nviol += 1
        rc = 1
    for name, err in errors:
        print('harness error in %s/%s:\n%s' % (pid, name, err))
    if errors and rc == 0:
        rc = 2
    cov = {
        'evaluations': sum(d['evaluations'] for d in per.values()),
        'distinct_nontrivial': sum(len(d['nt']) for d in per.values()),
        'rule': ' | '.join('%s: %s' % (s.name, s.rule) for s in subs),
        'samples': [{'sub': n, 'case': c} for n, d in sorted(per.items())
                    for c in d['samples']],
        'sub_checks': {n: {'evaluations': d['evaluations'],
                           'distinct_nontrivial': len(d['nt']),
                           'labels': dict(sorted(d['labels'].items())),
                           'known_findings_excluded': d['known'],
                           'budget_hit': d['inconclusive'],
                           'cpu_wall_s': round(d['wall_s'], 2)}
                       for n, d in sorted(per.items())},
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': cov, 'wall_s': round(time.monotonic() - t0, 2),
          'violations': nviol,
          'assumptions': ['numpy/scipy/libm arithmetic is trusted; reference '
                          'models in pbt/ref.py use numpy long double where '
                          'rounding matters',
                          'generated inputs only: no claim outside the '
                          'generator domains stated in DESIGN.md']}
    if not a.only:
        edir = os.path.join(ROOT, 'evidence')
        os.makedirs(edir, exist_ok=True)
        tmp = os.path.join(edir, '.%s.tmp' % pid)
        with open(tmp, 'w') as fp:
            json.dump(ev, fp, indent=1, default=str)
        os.replace(tmp, os.path.join(edir, pid + '.json'))
    if a.v:
        for n, d in sorted(per.items()):
            print('%-28s eval %6d  nontrivial %6d  %6.1f s  %s%s' % (
                n, d['evaluations'], len(d['nt']), d['wall_s'],
                'BUDGET ' if d['inconclusive'] else '',
                ' '.join('%s=%d' % kv for kv in sorted(d['labels'].items()))))
    print('%s: %d cases, %d distinct non-trivial, %.1f s, %s' % (
        pid, cov['evaluations'], cov['distinct_nontrivial'],
        time.monotonic() - t0, 'no violation' if rc == 0 else 'exit %d' % rc))
    return rc
