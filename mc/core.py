"""Small bounded-exhaustive model checking framework.

A check is a module of /verif/checks with:

    PROP      property id
    LEVEL     level written in the evidence (default: model_checking)
    cases(tier)      -> iterator over JSON-able scenario descriptors: the
                        complete enumeration of the bounded space, in a fixed
                        order, the simplest scenarios first
    run(case, cx)    -> executes one scenario against the real code and
                        compares every step with the reference model

Every scenario is explored; nothing is sampled.  ``cx.state(key)`` records a
distinct state (hash of its canonical form), ``cx.step(n)`` the operations of
the implementation which were executed, ``cx.trace()`` a complete behaviour of
the reference model compared with the implementation.
"""

import argparse
import collections
import hashlib
import importlib
import itertools
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BEER_REPO', '/repo')
CASE_TIMEOUT = 240


class Violation(Exception):
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class CaseTimeout(BaseException):
    pass


class Harness(Exception):
    'Error of the harness itself (never caused by the code under test).'


def _hash(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()


class Context:
    def __init__(self, tier):
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.sig = None
        self.labels = collections.Counter()
        self.tmp = None

    def state(self, *key):
        self.states.add(_hash(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def label(self, name):
        'Count an observed outcome (shows the exploration is not vacuous).'
        self.labels[name] += 1

    def fail(self, msg, sig=None):
        raise Violation(msg, sig or self.sig)

    def check(self, cond, msg, sig=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, sig)

    def close(self, got, want, what, rtol=1e-7, atol=1e-9):
        import numpy as np
        got, want = tonp(got), tonp(want)
        if got.shape != want.shape:
            self.fail(f'{what}: shape {got.shape}, expected {want.shape}\n'
                      f'got={got!r}\nexpected={want!r}')
        gi, wi = np.isfinite(got), np.isfinite(want)
        ok = bool((gi == wi).all())
        if ok and not gi.all():
            a, b = got[~gi], want[~gi]
            ok = bool(((a == b) | (np.isnan(a) & np.isnan(b))).all())
        if ok:
            ok = np.allclose(got[gi], want[gi], rtol=rtol, atol=atol)
        if not ok:
            self.fail(f'{what}: got {fmt(got)}\nexpected {fmt(want)}')

    def same(self, got, want, what):
        if got != want:
            self.fail(f'{what}: got {got!r}\nexpected {want!r}')

    def raises(self, exc, fn, what):
        try:
            fn()
        except exc:
            return
        self.fail(f'{what}: no error reported')

    def tmpdir(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix='mc_case_', dir=_scratch())
        return self.tmp

    def cleanup(self):
        if self.tmp is not None:
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None


_SCRATCH = None


def _scratch():
    return _SCRATCH


def tonp(x):
    import numpy as np
    try:
        import torch
        if isinstance(x, torch.Tensor):
            return x.detach().cpu().numpy().astype(np.float64)
    except ImportError:
        pass
    if isinstance(x, (list, tuple)):
        return np.array([tonp(i) for i in x], dtype=np.float64)
    return np.asarray(x, dtype=np.float64)


def fmt(a):
    import numpy as np
    with np.printoptions(precision=10, threshold=200, linewidth=120):
        return repr(a)


# --------------------------------------------------------------------------
# Execution of the scenarios.

_MODULE = None
_TIER = None


def _alarm(signum, frame):
    raise CaseTimeout()


def _run_one(case):
    cx = Context(_TIER)
    viol = None
    signal.signal(signal.SIGALRM, _alarm)
    limit = getattr(_MODULE, 'CASE_TIMEOUT', CASE_TIMEOUT)
    signal.alarm(limit)
    try:
        _MODULE.run(case, cx)
    except Violation as v:
        viol = (str(v), v.sig)
    except CaseTimeout:
        viol = (f'the operation did not terminate within {limit} s', cx.sig)
    except Harness:
        signal.alarm(0)
        cx.cleanup()
        raise
    except SystemExit as e:
        viol = (f'unexpected exit ({e.code!r})\n' + traceback.format_exc(),
                cx.sig)
    except Exception:
        viol = ('unexpected exception on a valid scenario\n'
                + traceback.format_exc(), cx.sig)
    finally:
        signal.alarm(0)
    cx.cleanup()
    return viol, cx


def _run_chunk(chunk):
    states, trans, traces = set(), 0, 0
    labels = collections.Counter()
    viols = []
    for idx, case in chunk:
        viol, cx = _run_one(case)
        states |= cx.states
        trans += cx.transitions
        traces += cx.traces
        labels += cx.labels
        if viol is not None:
            viols.append((idx, case, viol[0], viol[1]))
            if len(viols) >= 20:
                break
    return len(chunk), states, trans, traces, labels, viols


def _chunks(iterable, size):
    it = iter(iterable)
    while True:
        chunk = list(itertools.islice(it, size))
        if not chunk:
            return
        yield chunk


def load_findings():
    path = os.path.join(VERIF, 'known_findings.txt')
    known = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('known: '):
                    continue
                fields = line[len('known: '):].split(' ', 2)
                prop = fields[0].split('=', 1)[1]
                sig = fields[1].split('=', 1)[1]
                known[(prop, sig)] = fields[2]
    return known


def _init_worker():
    import torch
    torch.set_num_threads(1)


def check_repo():
    if not os.path.isdir(os.path.join(REPO, 'beer')):
        raise Harness(f'no beer source tree in {REPO}')


def main(argv=None):
    global _MODULE, _TIER, _SCRATCH
    parser = argparse.ArgumentParser()
    parser.add_argument('prop')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--replay')
    parser.add_argument('--jobs', type=int,
                        default=int(os.environ.get('MC_JOBS', '0'))
                        or min(8, os.cpu_count() or 1))
    parser.add_argument('--limit', type=int, default=None,
                        help='debugging only')
    args = parser.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1'))

    t0 = time.time()
    check_repo()
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)
    import warnings
    warnings.filterwarnings('ignore')
    _TIER = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    prop = args.prop
    _SCRATCH = tempfile.mkdtemp(prefix=f'mc_{prop}_')
    rundir = os.getcwd()
    try:
        return _main(args, prop, seed, t0)
    finally:
        os.chdir(rundir)
        shutil.rmtree(_SCRATCH, ignore_errors=True)


def _write_replay(prop, case, msg):
    outdir = os.path.join(VERIF, 'replays')
    os.makedirs(outdir, exist_ok=True)
    name = hashlib.blake2b(json.dumps(case, sort_keys=True).encode(),
                           digest_size=6).hexdigest()
    path = os.path.join(outdir, f'{prop}-{name}.json')
    with open(path, 'w') as f:
        json.dump({'property': prop, 'case': case, 'message': msg,
                   'replay': f'bash /verif/check.sh {prop} --replay {path}'},
                  f, indent=1)
    return path


def _main(args, prop, seed, t0):
    global _MODULE
    try:
        _MODULE = importlib.import_module(f'checks.{prop}')
    except Exception:
        # The code under test cannot be imported any more.
        frames = traceback.format_exc()
        if f'{REPO}/' not in frames:
            raise
        path = _write_replay(prop, {'import': True}, frames)
        print(frames)
        print(f'VIOLATION property={prop} replay={path}')
        return 1

    if args.replay:
        with open(args.replay) as f:
            case = json.load(f)['case']
        viol, cx = _run_one(case)
        if viol is None:
            print('replay: the property holds on this scenario')
            return 0
        print(viol[0])
        print(f'VIOLATION property={prop} replay={args.replay}')
        return 1

    known = load_findings()
    states, trans, traces, ncases = set(), 0, 0, 0
    labels = collections.Counter()
    viols, samples = [], []
    chunk_size = getattr(_MODULE, 'CHUNK', 8)

    def feed():
        for i, case in enumerate(_MODULE.cases(_TIER)):
            if args.limit is not None and i >= args.limit:
                break
            if i in (0, 1, 10, 100, 1000, 10000):
                samples.append(case)
            yield i, case

    njobs = min(args.jobs, getattr(_MODULE, 'JOBS', args.jobs))
    stopped = False
    # Violations with a known signature do not stop the exploration.
    def consume(results):
        nonlocal trans, traces, ncases, stopped
        for n, st, tr, tc, lb, vs in results:
            states.update(st)
            trans += tr
            traces += tc
            ncases += n
            labels.update(lb)
            viols.extend(vs)
            if len([v for v in viols if (prop, v[3]) not in known]) >= 5:
                stopped = True
                return

    if njobs <= 1:
        consume(map(_run_chunk, _chunks(feed(), chunk_size)))
    else:
        ctx = mp.get_context('fork')
        with ctx.Pool(njobs, initializer=_init_worker) as pool:
            consume(pool.imap(_run_chunk, _chunks(feed(), chunk_size)))
            pool.terminate()

    viols.sort(key=lambda v: v[0])
    bad = [v for v in viols if (prop, v[3]) not in known]
    seen_known = {}
    for v in viols:
        if (prop, v[3]) in known:
            seen_known.setdefault(v[3], v)

    level = getattr(_MODULE, 'LEVEL', 'model_checking')
    coverage = {
        'states': len(states),
        'transitions': trans,
        'traces_validated_against_impl': traces,
        'scenarios': ncases,
        'exhaustive': not stopped and args.limit is None,
        'samples': samples,
        'outcomes': dict(sorted(labels.items())),
        'bounds': getattr(_MODULE, 'BOUNDS', {}).get(_TIER, ''),
    }
    evidence = {
        'property': prop, 'tier': _TIER, 'seed': seed, 'level': level,
        'coverage': coverage,
        'assumptions': getattr(_MODULE, 'ASSUMPTIONS', []),
        'violations': len(bad),
        'known_findings': sorted(seen_known),
        'wall_s': round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write('\n')

    print(f'{prop} [{_TIER}] scenarios={ncases} states={len(states)} '
          f'transitions={trans} traces={traces} '
          f'outcomes={dict(sorted(labels.items()))} '
          f'wall={evidence["wall_s"]}s')
    for sig in sorted(seen_known):
        print(f'KNOWN-FINDING: property={prop} {sig}: {known[(prop, sig)]}')
    if bad:
        idx, case, msg, sig = bad[0]
        path = _write_replay(prop, case, msg)
        print(f'scenario #{idx}: {json.dumps(case)[:2000]}')
        print(msg[:6000])
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    return 0


