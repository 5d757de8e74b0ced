"""Runner: forks one child per simulated run from a pristine process, collects results, shrinks, replays."""
import hashlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

from . import seams
from .seams import SIM, NoProgress


class Violation(Exception):
    """The property is broken in this run."""

    def __init__(self, kind, detail, **data):
        Exception.__init__(self, '%s: %s' % (kind, detail))
        self.kind = kind
        self.detail = str(detail)[:2000]
        self.data = data


class HarnessError(Exception):
    pass


def h(*parts):
    """Stable short hash of reprs (never Python's hash())."""
    return hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest()


def sub_seed(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), 'big')


class Ctx:
    """What a property's run() uses to talk to the runner."""

    def __init__(self):
        self.states = set()
        self.probes = {}
        self.simtime = {}
        self.nontrivial = False
        self.value = None          # result carried back to the parent (picklable)

    def fault(self, kind, n=1):
        if n:
            SIM.fired(kind, n)
            self.nontrivial = True

    def state(self, *parts):
        self.states.add(h(*parts))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def time(self, unit, n):
        self.simtime[unit] = self.simtime.get(unit, 0) + int(n)

    def check(self, cond, kind, detail='', **data):
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail, **data)

    def lib(self, fn, *a, **k):
        """Call the library where no exception is allowed."""
        try:
            return fn(*a, **k)
        except (Violation, HarnessError, NoProgress, seams.SimCrash, seams.SimInterrupt):
            raise
        except Exception as e:
            where = lib_frame(e)
            raise Violation('unexpected-exception', '%s: %s%s (call %s)' % (
                type(e).__name__, e, ' in %s' % where if where else '', getattr(fn, '__name__', fn)))


def lib_frame(e):
    """Name of the innermost library function an exception passed through, or None."""
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        if '/commpy/' in f.filename:
            return f.name
    return None


def _child_main(wfd, fn, args):
    """Body of a forked child: run fn(*args) and pickle the outcome to wfd."""
    out = None
    try:
        try:
            out = ('ok', fn(*args))
        except Violation as v:
            out = ('violation', v.kind, v.detail, SIM.counts, SIM.steps)
        except NoProgress as e:
            out = ('violation', 'no-progress', str(e), SIM.counts, SIM.steps)
        except BaseException as e:
            where = lib_frame(e)
            if where and isinstance(e, Exception) and not isinstance(e, (HarnessError, seams.SimMemoryError, seams.CallbackFault)):
                out = ('violation', 'unexpected-exception', '%s: %s in %s' % (type(e).__name__, e, where), SIM.counts, SIM.steps)
            else:
                out = ('error', '%s: %s' % (type(e).__name__, e), traceback.format_exc())
        data = pickle.dumps(out, 4)
    except BaseException as e:
        data = pickle.dumps(('error', 'result not picklable: %r' % (e,), traceback.format_exc()), 4)
    try:
        with os.fdopen(wfd, 'wb') as f:
            f.write(data)
    finally:
        os._exit(0)


def fork_call(fn, args=(), timeout=120.0):
    """Run fn(*args) in a forked child; returns its outcome tuple or ('timeout',) / ('died', status)."""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        _child_main(wfd, fn, args)
    os.close(wfd)
    chunks = []
    end = time.monotonic() + timeout
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        r, _, _ = select.select([rfd], [], [], left)
        if not r:
            timed_out = True
            break
        b = os.read(rfd, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(rfd)
    if timed_out:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return ('timeout',)
    try:
        return pickle.loads(b''.join(chunks))
    except Exception:
        return ('died', status)


def isolated(fn, *args, timeout=120.0):
    """Reference execution in a pristine fork.  Returns ('ok', value) or ('exc', type name, text)."""
    def body():
        try:
            return ('ok', fn(*args))
        except Exception as e:
            return ('exc', type(e).__name__, str(e))
    out = fork_call(body, (), timeout)
    if out[0] == 'ok':
        return out[1]
    if out[0] == 'timeout':
        raise HarnessError('reference execution timed out')
    raise HarnessError('reference execution failed: %r' % (out,))


def execute(mod, scenario, trace_budget=None):
    """Run one scenario in this (already forked) process."""
    SIM.reset()
    SIM.active = True
    ctx = Ctx()
    import numpy as np
    np.random.seed(sub_seed('np', json.dumps(scenario, sort_keys=True)) % (2 ** 32))
    random.seed(0)
    if trace_budget:
        with seams.Tracer(budget=trace_budget):
            mod.run(scenario, ctx)
    else:
        mod.run(scenario, ctx)
    return {'counts': dict(SIM.counts), 'steps': SIM.steps, 'states': sorted(ctx.states), 'probes': ctx.probes,
            'simtime': ctx.simtime, 'nontrivial': bool(ctx.nontrivial or any(SIM.counts.values())),
            'value': ctx.value}


def run_scenario(mod, scenario, timeout=None):
    """-> dict(status=ok|violation|error, ...) ; scenario is a plain JSON value."""
    timeout = timeout or getattr(mod, 'TIMEOUT', 60.0)
    t0 = time.monotonic()
    out = fork_call(execute, (mod, scenario), timeout)
    if out[0] == 'timeout':
        budget = getattr(mod, 'BUDGET', 1000000)
        out = fork_call(execute, (mod, scenario, budget), max(150.0, timeout))
        if out[0] == 'timeout':
            return {'status': 'error', 'error': 'run timed out and did not reach its step budget', 'scenario': scenario}
    wall = time.monotonic() - t0
    if out[0] == 'ok':
        return dict(out[1], status='ok', wall=wall)
    if out[0] == 'violation':
        return {'status': 'violation', 'kind': out[1], 'detail': out[2], 'counts': out[3], 'steps': out[4],
                'wall': wall}
    if out[0] == 'died':
        return {'status': 'error', 'error': 'child died: %r' % (out[1],), 'wall': wall}
    return {'status': 'error', 'error': out[1], 'trace': out[2], 'wall': wall}


def make_scenario(mod, prop, seed, index, tier):
    r = random.Random('%s/%s/%s' % (seed, prop, index))
    sc = mod.gen(r, tier, index)
    sc['prop'] = prop
    sc['index'] = index
    sc['base_seed'] = seed
    return json.loads(json.dumps(sc))


# --------------------------------------------------------------------------------------------------- shrinking
def _get(sc, path):
    for p in path.split('.'):
        if isinstance(sc, list) and p.isdigit() and int(p) < len(sc):
            sc = sc[int(p)]
        elif isinstance(sc, dict) and p in sc:
            sc = sc[p]
        else:
            return None
    return sc


def _set(sc, path, val):
    sc = json.loads(json.dumps(sc))
    d = sc
    ps = path.split('.')
    for p in ps[:-1]:
        d = d[int(p) if isinstance(d, list) else p]
    d[ps[-1]] = val
    return sc


def shrink(mod, scenario, kind, max_runs=150, max_s=45.0):
    """Greedy minimisation of the fields a property lists (SHRINK_LISTS, SHRINK_INTS), keeping the violation kind."""
    end = time.monotonic() + max_s
    runs = [0]

    def bad(sc):
        if runs[0] >= max_runs or time.monotonic() > end:
            return False
        runs[0] += 1
        try:
            r = run_scenario(mod, sc, timeout=20)
        except Exception:
            return False
        return r['status'] == 'violation' and r['kind'] == kind
    best = scenario
    improved = True
    while improved and runs[0] < max_runs and time.monotonic() < end:
        improved = False
        for path in getattr(mod, 'SHRINK_LISTS', ()):
            lst = _get(best, path)
            if not isinstance(lst, list) or not lst:
                continue
            n = len(lst)
            size = n
            while size >= 1:
                i = 0
                while i < len(_get(best, path)):
                    cur = _get(best, path)
                    cand = _set(best, path, cur[:i] + cur[i + size:])
                    if bad(cand):
                        best = cand
                        improved = True
                    else:
                        i += size
                size //= 2
        for path, lo in getattr(mod, 'SHRINK_INTS', ()):
            v = _get(best, path)
            if not isinstance(v, int) or isinstance(v, bool) or v <= lo:
                continue
            for cand_v in (lo, lo + (v - lo) // 4, lo + (v - lo) // 2, v - 1):
                if cand_v < v and bad(_set(best, path, cand_v)):
                    best = _set(best, path, cand_v)
                    improved = True
                    break
    return best, runs[0]
