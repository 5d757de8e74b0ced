"""C06: threads sharing codes, modems and interleavers do not disturb each other."""
import random

from .. import ldpcsim as D
from .. import ops as O
from ..core import HarnessError, Violation, fork_call, isolated
from ..seams import SIM, AllocPolicy, Sched, SimInterrupt, stream

SHRINK_LISTS = ('schedules', 'threads.0', 'threads.1', 'threads.2', 'schedules.0.plan', 'schedules.0.novel')
TIMEOUT = 120.0
SHARING = ('conv-encode', 'viterbi', 'viterbi-again', 'ldpc-decode', 'ldpc-encode', 'ldpc-build', 'modulate', 'demod-hard', 'demod-soft',
           'interlv', 'turbo-encode', 'turbo-decode', 'map', 'link', 'utils', 'kbest', 'max-log', 'siso', 'mimo', 'trellis-new')
HEAVY = SHARING + ('viterbi', 'viterbi', 'ldpc-decode', 'ldpc-decode', 'ldpc-encode', 'ldpc-encode', 'map', 'turbo-encode', 'conv-encode')


def gen_schedule(r, n):
    how = r.choice(['novel', 'steps', 'both'])
    novel = [[r.choice([1, 1, 2, 3, 5, 8, 13, 30]), r.randrange(n)] for _ in range(r.choice([1, 2, 4, 10]))]
    steps = D.gen_plan(r, r.choice([1, 2, 4, 16, 60, 200]), r.choice([10, 40, 100, 400, 3000]))
    return {'plan': steps if how != 'novel' else [], 'novel': novel if how != 'steps' else [],
            'prebuilt': r.random() < 0.2, 'poison': r.random() < 0.3,
            'abort': [r.randrange(n), int(10 ** (r.random() * 3.5)), 0] if r.random() < 0.12 else
            [r.randrange(n), r.randrange(1, 60), 1] if r.random() < 0.12 else None}


def gen(r, tier, index):
    n = r.choice([2, 2, 3])
    ops = []
    only = None
    if r.random() < 0.7:                  # every thread runs the same kinds of operation
        only = tuple(set(r.sample(HEAVY, r.choice([1, 1, 2, 3]))))
    for _ in range(n):
        ops.append(O.gen_ops(r, r.choice([1, 1, 2]), only=only, config=False, threads=True))
    if only and r.random() < 0.5:         # the very same call in several threads
        for i in range(1, n):
            ops[i][0] = list(ops[0][0])
    world = r.randrange(1 << 30)
    return {'world': world | 1 if r.random() < 0.6 else world, 'threads': {str(i): o for i, o in enumerate(ops)},
            'schedules': [gen_schedule(r, n) for _ in range(3)]}


def run(sc, ctx):
    n = len(sc['threads'])
    lists = [sc['threads'][str(i)] for i in range(n)]
    refs = {}
    for l in lists:
        for o in l:
            if repr(o) not in refs:
                out = isolated(O.alone, sc['world'], [], o, None)
                assert out[0] == 'ok', out
                refs[repr(o)] = out[1]
    for k, sched in enumerate(sc['schedules']):
        out = fork_call(one, (sc['world'], lists, refs, sched), 100)
        if out[0] == 'violation':
            raise Violation(out[1], 'schedule %d: %s' % (k, out[2]))
        if out[0] != 'ok':
            raise HarnessError('schedule %d: %r' % (k, out))
        counts, probes, steps, switches = out[1]
        for f, c in counts.items():
            SIM.fired(f, c)
        for p in probes:
            ctx.probe(p)
        ctx.time('scheduler_steps', steps)
        ctx.probe('schedules')
        if switches:
            ctx.nontrivial = True
            ctx.probe('interleaved')
            ctx.state(switches)


def one(world, lists, refs, sched):
    """One schedule of the threads, in a fork of its own."""
    import numpy as np
    n = len(lists)
    probes = []
    SIM.counts = {}

    def check(cond, kind, detail):
        if not cond:
            raise Violation(kind, detail())
    base = O.World(world)
    worlds = [O.World(world, shared=base.shared, tag=i) for i in range(n)]
    calls = [[O.prepare(w, o) for o in l] for w, l in zip(worlds, lists)]
    if sched['prebuilt']:
        from commpy.channelcoding import build_matrix
        for k, p in base.shared.items():
            if k.startswith('ldpc') and p['n_vnodes'] < 90:
                build_matrix(p)
    if sched['poison']:
        SIM.alloc = AllocPolicy('junk', 3)
    abort = SimInterrupt('injected')
    got = [[] for _ in range(n)]

    def body(i):
        def go():
            for o, c in zip(lists[i], calls[i]):
                stream(np).seed(o[2] % (1 << 32))
                try:
                    c.run()
                    got[i].append(('ok', c.value(), O.stream_state(np)))
                except SimInterrupt as e:
                    got[i].append(('aborted',))
                except Exception as e:
                    got[i].append(('exc', type(e).__name__, str(e)[:200]))
        return go
    ab = sched['abort']
    s = Sched([body(i) for i in range(n)], sched['plan'], streams=[np.random.RandomState(i) for i in range(n)], budget=6000000,
              novel=sched['novel'], aborts={ab[0]: [ab[1], abort, ab[2]]} if ab and ab[0] < n else None)
    for st, v in s.run():
        if st == 'exc':
            raise v
    SIM.alloc = None
    for i, l in enumerate(lists):
        for j, o in enumerate(l):
            ref, g = refs[repr(o)], got[i][j]
            probes.append('op-' + o[0])
            if g[0] == 'aborted':
                probes.append('aborted')
                continue
            check(O.OPS[o[0]]['fails'] or ref[0] == 'ok', 'unexpected-exception', lambda: '%s fails alone: %s' % (o[0], ref[1:]))
            d = O.outcome_diff(ref, g)
            check(d is None, 'thread-interference', lambda: 'thread %d, %s with %s in the other threads: %s' % (
                i, o, [[x[0] for x in y] for k, y in enumerate(lists) if k != i], d))
    # what the threads left behind is still usable
    if lists[0]:
        o = lists[0][0]
        d = O.outcome_diff(refs[repr(o)], O.do(O.World(world, shared=base.shared, tag=7), o)[0])
        check(d is None, 'thread-aftermath', lambda: '%s after the threads ended: %s' % (o, d))
    D.cleanup(base.dir)
    return SIM.counts, probes, s.steps, [(a, b) + tuple(w) if isinstance(w, tuple) else (a, b, w) for a, b, w in s.switches]
