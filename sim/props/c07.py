"""C07: an aborted call leaves the objects it was using usable; the abort reaches the caller."""
import random

from .. import ldpcsim as D
from .. import ops as O
from ..core import fork_call, isolated
from ..seams import SIM, AllocPolicy, CallbackFault, SimInterrupt, SimMemoryError, Tracer

SHRINK_LISTS = ('ops',)
TIMEOUT = 120.0


def gen(r, tier, index):
    ops = []
    for o in O.gen_ops(r, r.choice([1, 2, 2, 3, 5])):
        ops.append(o + [None])
        if r.random() < 0.8:
            k = r.choice(['line', 'place', 'place', 'alloc', 'callback'])
            if k == 'callback':
                o = O.gen_ops(r, 1, only=('link', 'link', 'best-first', 'max-log'))[0]
                ops[-1] = o + [None]
            for _ in range(r.choice([0, 0, 1, 4]) if k == 'place' else 0):      # several attempts, each aborted somewhere else
                ops.append([o[0], o[1], r.randrange(1 << 30), None])
                ops[-2][3] = [k, r.random()]
            ops[-1][3] = [k, r.random() if r.random() < 0.85 else 1.0]
            if r.random() < 0.65:                              # try again: the same operation, or another of its kind
                ops.append([o[0], o[1] if r.random() < 0.5 else r.randrange(1 << 30), r.randrange(1 << 30), None])
    return {'world': r.randrange(1 << 30), 'ops': ops, 'poison': r.random() < 0.4, 'pool': r.random() < 0.5}


def measure(w, o):
    """In a fork: lines, allocations and callbacks of the operation from the current state."""
    SIM.alloc = AllocPolicy('zero', 0)
    SIM.alloc.fail_at = 1 << 60
    c = O.prepare(w, o)
    O.stream(o)
    t0 = w.ticks
    n0 = SIM.alloc.n_alloc
    record = []
    with Tracer(record=record) as t:
        try:
            c.run()
        except Exception:
            pass
    return t.n, SIM.alloc.n_alloc - n0, w.ticks - t0, compress(record)


def compress(record, keep=40):
    """Places in order of first execution, each with (some of) the line numbers at which it was executed."""
    places = {}
    for i, p in enumerate(record):
        places.setdefault(p, []).append(i + 1)
    return [v if len(v) <= keep else [v[i * len(v) // keep] for i in range(keep)] for v in places.values()]


def place(places, f):
    """Choose a place, then one of its executions."""
    x = f * len(places)
    v = places[min(len(places) - 1, int(x))]
    y = (x * 7919) % 1.0
    return v[0] if y < 0.4 else v[min(len(v) - 1, int((y - 0.4) / 0.6 * len(v)))]


WINDOW = 4


def leaves(prepare, w, o, at, exc, look):
    """In a fork: what the operation aborted at line `at` leaves different, as told by look() -> dict."""
    def body():
        c = prepare(w, o)
        O.stream(o)
        before = look()
        try:
            with Tracer(at=at, exc=exc):
                c.run()
        except BaseException as e:
            e.__traceback__ = None
            e.__context__ = None
        after = look()
        return sorted(k for k in before if before[k] != after[k])
    r = fork_call(body, (), 60)
    assert r[0] == 'ok', r
    return r[1]


def race_only(prepare, w, o, at, exc, look):
    """Whether aborting at line `at` leaves something behind, but only at fewer than WINDOW successive lines: an asynchronous
    exception between acquiring something and the `try` or `with` that releases it cannot be handled in Python."""
    keys = leaves(prepare, w, o, at, exc, look) if at else []
    if not keys:
        return False
    for k in keys:
        n = 1
        for step in (1, -1):
            d = step
            while n < WINDOW and at + d > 0 and k in leaves(prepare, w, o, at + d, exc, look):
                n += 1
                d += step
        if n >= WINDOW:
            return False
    return True


def run(sc, ctx):
    import numpy as np
    w = O.World(sc['world'], pool={} if sc['pool'] else None)
    config = []
    refs = O.references(sc['world'], sc['ops'])
    skipped = False
    aborted = []
    must_config = None
    np.seterr(all='warn')                                      # (warnings are silenced; a leaked error state is not)
    errs = np.geterr()
    for i, (name, a, s, fault) in enumerate(sc['ops']):
        o = [name, a, s]
        spec = O.OPS[name]
        if fault is not None:
            m = fork_call(measure, (w, o), 60)
            assert m[0] == 'ok', m
            lines, allocs, cbs, places = m[1]
            n = {'line': lines, 'place': lines, 'alloc': allocs, 'callback': cbs}[fault[0]]
            kind = fault[0] if n and fault[0] != 'place' else 'line'
            n = n or lines
            at = place(places, fault[1]) if fault[0] == 'place' and places else min(n, 1 + int(fault[1] * n))
            exc = SimInterrupt('injected') if kind == 'line' and a & 1 else SimMemoryError('injected') if kind == 'line' else None
            if kind == 'line' and race_only(O.prepare, w, o, at, exc, lambda: {'error state': str(np.geterr())}):
                ctx.probe('unavoidable-race')
                skipped = skipped or spec['config']
                continue
            c = O.prepare(w, o)
            O.stream(o)
            SIM.alloc = AllocPolicy('junk', i, fail_at=at if kind == 'alloc' else None) if sc['poison'] or kind == 'alloc' else None
            w.ticks, w.cbfault = 0, at if kind == 'callback' else None
            before = dict(SIM.counts)
            res = 'returned'
            try:
                if kind == 'line':
                    with Tracer(at=at, exc=exc) as t:
                        c.run()
                else:
                    c.run()
            except (SimInterrupt, SimMemoryError, CallbackFault) as e:
                res = 'aborted'
            except Exception as e:
                res = 'failed with %s: %s' % (type(e).__name__, e)
            SIM.alloc = None
            w.cbfault = None
            if kind == 'line' and t.hit:
                SIM.fired('interrupt' if a & 1 else 'memory-error')
            hit = t.hit if kind == 'line' else any(SIM.counts.get(k, 0) > before.get(k, 0) for k in ('alloc-failure', 'callback-failure'))
            if hit:
                ctx.check(res == 'aborted' or (spec['fails'] and res.startswith('failed')), 'abort-swallowed',
                          lambda: '%s aborted by %s %d of %d: the call %s' % (o, kind, at, n, res))
                ctx.check(np.geterr() == errs, 'error-state', lambda: '%s aborted by %s %d leaves NumPy error handling %s' % (
                    o, kind, at, np.geterr()))
                aborted.append((name, kind))
                ctx.probe('aborted-' + kind)
                ctx.state(name, kind, t.where if kind == 'line' else at)
                if not spec['config']:
                    continue
            if spec['config']:
                # an aborted configuration change may or may not have taken effect: the caller repeats it
                got, _ = O.do(w, o)
                ctx.check(got[0] == 'ok', 'unexpected-exception', '%s, repeated after %s: %s' % (o, aborted[-1:], got[1:]))
                config.append(o)
                ref = isolated(O.alone, sc['world'], config[:-1], o, None)[1] if skipped else refs[i]
                d = O.outcome_diff(ref, got, state=False)
                ctx.check(d is None, 'differs-after-abort', lambda: '%s repeated after being aborted: %s' % (o, d))
            continue
        ref = isolated(O.alone, sc['world'], config, o, None)[1] if skipped else refs[i]
        SIM.alloc = AllocPolicy('junk', i) if sc['poison'] else None
        got, call = O.do(w, o)
        SIM.alloc = None
        ctx.check(spec['fails'] or ref[0] == 'ok', 'unexpected-exception', '%s fails alone: %s' % (name, ref[1:]))
        d = O.outcome_diff(ref, got)
        ctx.check(d is None, 'differs-after-abort', lambda: '%s after the aborted calls %s: %s' % (o, aborted, d))
        if aborted:
            ctx.probe('used-after-abort')
            if aborted[-1][0] == name:
                ctx.probe('retried')
        if spec['config'] and got[0] == 'ok':
            config.append(o)
    D.cleanup(w.dir)
