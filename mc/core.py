"""
The explorer.

A property is a list of Units. A Unit enumerates *cases*: JSON-able
descriptions of one complete execution (an operation sequence, an input,
a crash point...). `run` executes one case on the real code in /repo, and
compares what it sees with a reference model, raising Violation if they
disagree. The enumeration is finite, and every case of it is run: nothing
is sampled.

Cases are executed in forked workers, which take every n-th case each.
"""

import gc
import hashlib
import itertools
import json
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get('MC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DATA = os.path.join(VERIF, 'data')
REPLAYS = os.path.join(VERIF, 'evidence', 'replays')

CASE_TIMEOUT = 100 # seconds: a case takes milliseconds


class Violation(Exception):
    pass


class Known(Exception):
    """A violation which is on the list of known findings."""


class Hang(BaseException):
    pass


class Ctx:
    """What a case uses to report what it did."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.states = set()
        self.transitions = 0
        self.outcomes = set()
        self.known = set()
        self.trace = []
        self._n = 0

    def step(self, n=1):
        self.transitions += n

    def state(self, *what):
        """Records that we reached this (canonical) state."""
        self.states.add(hashlib.blake2b(
            repr(what).encode('utf-8', 'surrogatepass'),
            digest_size = 8).digest())

    def note(self, *what):
        self.trace.append(' '.join(str(w) for w in what))

    def check(self, condition, *what):
        if not condition:
            raise Violation(' '.join(
                w if isinstance(w, str) else repr(w) for w in what))

    def same(self, found, wanted, *what):
        if not (found==wanted):
            raise Violation(
                    ' '.join(str(w) for w in what)+
                    f':\n   found: {found!r}\n  wanted: {wanted!r}')

    def known_finding(self, name):
        self.known.add(name)

    def path(self, name='x.sif'):
        return os.path.join(self.tmp, name)

    def fresh_dir(self):
        self._n += 1
        result = os.path.join(self.tmp, f'd{self._n}')
        os.mkdir(result)
        return result


class Unit:
    def __init__(self, name, cases, run, doc=''):
        self.name = name
        self.cases = cases  # tier -> iterable
        self.run = run      # (ctx, case)
        self.doc = doc


def _alarm(signum, frame):
    raise Hang()


def run_one(unit, ctx, case):
    """
    Runs a case. Returns None if all was well, or else
    a description of the problem.
    """
    ctx.trace = []
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        unit.run(ctx, case)
        return None
    except Violation as v:
        return str(v)
    except Hang:
        return f'still running after {CASE_TIMEOUT}s\n' + traceback.format_exc()
    except (KeyboardInterrupt, SystemExit) as e:
        return f'unexpected {type(e).__name__}\n' + traceback.format_exc()
    except BaseException:
        return 'unexpected exception\n' + traceback.format_exc()
    finally:
        signal.alarm(0)


class Result:
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.cases = 0
        self.known = set()
        self.violation = None
        self.samples = []
        self.outcomes = set()
        self.index = None


def _work(unit_list, tier, which, of, pipe, tmp, stop):
    try:
        gc.freeze()
        gc.set_threshold(50000, 20, 20)
        results = []
        for u, unit in enumerate(unit_list):
            r = Result()
            # keep memory in check: leave the last resort to us
            ctx = Ctx(tmp)
            for i, case in enumerate(unit.cases(tier)):
                if i%of!=which:
                    continue
                if stop.is_set():
                    break
                problem = run_one(unit, ctx, case)
                r.cases += 1
                if len(r.samples)<1 and i>20:
                    r.samples.append([unit.name, case])
                if problem is not None:
                    r.violation = (unit.name, case, problem,
                                   list(ctx.trace))
                    r.index = i
                    stop.set()
                    break
            r.states = ctx.states
            r.transitions = ctx.transitions
            r.known = ctx.known
            r.outcomes = ctx.outcomes
            results.append(r)
            if r.violation:
                break
        pipe.send(results)
    except BaseException:
        r = Result()
        r.violation = ('harness', None, traceback.format_exc(), [])
        r.index = 0
        pipe.send([r])
    finally:
        pipe.close()
        sys.stdout.flush()
        os._exit(0)


def explore(units, tier, jobs=None):
    jobs = jobs or int(os.environ.get('MC_JOBS', 0)) or min(8, os.cpu_count() or 1)
    base = tempfile.mkdtemp(prefix='mc-')
    stop = multiprocessing.get_context('fork').Event()
    workers = []
    try:
        for w in range(jobs):
            tmp = os.path.join(base, f'w{w}')
            os.mkdir(tmp)
            here, there = multiprocessing.Pipe(duplex=False)
            pid = os.fork()
            if pid==0:
                here.close()
                os.chdir(tmp)
                _work(units, tier, w, jobs, there, tmp, stop)
                os._exit(0)
            there.close()
            workers.append((pid, here))

        per_unit = {}
        for pid, here in workers:
            try:
                results = here.recv()
            except EOFError:
                r = Result()
                r.violation = ('harness', None,
                               'the process running the code under test died',
                               [])
                r.index = 0
                results = [r]
            os.waitpid(pid, 0)
            for u, r in zip(units, results):
                per_unit.setdefault(u.name, []).append(r)
        return per_unit
    finally:
        shutil.rmtree(base, ignore_errors=True)


def merge(per_unit):
    total = Result()
    rows = []
    for name, results in per_unit.items():
        states = set()
        for r in results:
            states |= r.states
            total.known |= r.known
            total.samples.extend(r.samples[:1])
            total.outcomes |= r.outcomes
            if r.violation and (
                    total.violation is None or
                    (total.index or 0)>(r.index or 0)):
                total.violation = r.violation
                total.index = r.index
        row = dict(
                unit = name,
                cases = sum(r.cases for r in results),
                states = len(states),
                transitions = sum(r.transitions for r in results),
                )
        rows.append(row)
        total.states |= set((name, s) for s in states)
        total.transitions += row['transitions']
        total.cases += row['cases']
    return total, rows


def sequences(alphabet, depth, shortest=1):
    """All sequences over the alphabet, the shortest first."""
    alphabet = list(alphabet)
    for n in range(shortest, depth+1):
        for s in itertools.product(alphabet, repeat=n):
            yield list(s)


def periodic(alphabet, length=9, period=2):
    """All histories of this length which repeat themselves."""
    for s in itertools.product(list(alphabet), repeat=period):
        yield (list(s)*length)[:length]


def walks(alphabet, length=30):
    """
    Long histories, in which each member of the alphabet comes straight after
    each (a de Bruijn sequence, cut into overlapping pieces).
    """
    alphabet = list(alphabet)
    n = len(alphabet)
    ring = []
    for i in range(n):
        ring.append(i)
        for j in range(i+1, n):
            ring += [i, j]
    ring.append(0)
    for start in range(0, len(ring)-1, length-1):
        yield [alphabet[i] for i in ring[start:start+length]]
