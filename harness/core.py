"""Common machinery of the checks: workers on the real code, verdicts,
known findings and evidence."""
import json
import multiprocessing
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO_SRC = os.environ.get('MDPO_SRC', '/repo/src')  # (for experiments)
EVIDENCE = os.path.join(VERIF, 'evidence')
REPLAYS = int(os.environ.get('REPLAYS', '5'))
KNOWN = os.path.join(VERIF, 'known_findings.json')


class TaskTimeout(BaseException):
    pass


def _alarm(*_):
    raise TaskTimeout()


def _init_worker(base):
    d = tempfile.mkdtemp(dir=base)
    os.chdir(d)
    sys.stdin = open(os.devnull)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGALRM, _alarm)
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    sys.setrecursionlimit(3000)
    # (what has been inherited is not counted)
    with open('/proc/self/statm') as f:
        limit = int(f.read().split()[0]) * resource.getpagesize() + (4 << 30)
    resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    import warnings
    warnings.simplefilter('ignore')


def clean_cwd():
    for n in os.listdir('.'):
        if os.path.isdir(n) and not os.path.islink(n):
            shutil.rmtree(os.path.join(os.getcwd(), n))
        else:
            os.remove(os.path.join(os.getcwd(), n))


_timeouts = 0


def _call(job):
    global _timeouts
    fn, arg, limit = job
    if _timeouts > 2:
        return ('timeout', None)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return ('ok', fn(arg))
    except TaskTimeout:
        _timeouts += 1
        return ('timeout', None)
    except MemoryError:
        return ('exc', 'MemoryError')
    except SystemExit as e:
        return ('exc', f'SystemExit({e.code})')
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/mdpo/' in f.filename]
        if not where:
            # not in the code under test: its result could not be used (it
            # never happens on the unchanged tree)
            return ('exc', 'unusable result: '
                    + traceback.format_exc()[-1200:])
        f = where[-1]
        return ('exc', f'{type(e).__name__}: {e} '
                       f'({os.path.basename(os.path.dirname(f.filename))}/'
                       f'{os.path.basename(f.filename)} {f.name})')
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_real(fn, args, limit=20, procs=8):
    """Run ``fn`` (which drives the real code) on every argument, in worker
    processes with their own scratch working directories.

    Returns a list of (status, value): status is ok, exc (an exception came
    out of the code under test) or timeout.
    """
    args = list(args)
    base = tempfile.mkdtemp(prefix='mdpo-scratch-')
    try:
        ctx = multiprocessing.get_context('fork')
        procs = max(1, min(procs, len(args)))
        with ctx.Pool(procs, _init_worker, (base,)) as pool:
            out = pool.map(_call, [(fn, a, limit) for a in args],
                           chunksize=max(1, len(args) // (procs * 8) or 1))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return out


class Check:
    """One run of the check of one property."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.violations = []
        self.known_seen = {}
        self.states = self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.rng = random.Random(f'{prop}-{seed}')
        with open(KNOWN) as f:
            self.known = [k for k in json.load(f)['findings']
                          if k['property'] == prop]

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def tlc(self, res):
        self.states += res.distinct or res.generated
        self.transitions += res.generated

    def sample(self, x, n=3):
        if len(self.samples) < n:
            s = json.dumps(x, ensure_ascii=False, default=str)
            self.samples.append(x if len(s) < 3000 else s[:3000])

    def violation(self, clause, case):
        """Report a violation."""
        self.violations.append({'clause': clause, **case})

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        rdir = os.path.join(EVIDENCE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for old in os.listdir(rdir):
            if old.startswith(f'{self.prop}-'):
                os.remove(os.path.join(rdir, old))
        for k in self.known_seen.values():
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        cov = {
            'states': self.states, 'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'samples': self.samples,
        }
        cov.update(self.extra)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed,
            'level': 'model_checking', 'coverage': cov,
            'assumptions': self.assumptions,
            'violations': len(self.violations),
            'wall_s': round(time.time() - self.t0, 2),
        }
        with open(os.path.join(EVIDENCE, f'{self.prop}.json'), 'w') as f:
            json.dump(ev, f, ensure_ascii=False, indent=1, default=str)
        # smallest cases first
        self.violations.sort(key=lambda v: len(json.dumps(v, default=str)))
        for i, v in enumerate(self.violations[:REPLAYS]):
            path = os.path.join(rdir, f'{self.prop}-{i}.json')
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'seed': self.seed,
                           'tier': self.tier, **v}, f, ensure_ascii=False,
                          indent=1, default=str)
            print(f'VIOLATION property={self.prop} replay={path}')
            print(f"  clause: {v['clause']}")
        if self.violations:
            print(f'{len(self.violations)} violations')
            return 1
        print(f'{self.prop} held: {self.traces} executions of the real code,'
              f' {self.states} states, {time.time() - self.t0:.1f} s')
        return 0
