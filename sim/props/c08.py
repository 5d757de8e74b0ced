"""C08: data and objects handed to an operation come out unaltered, even when the call fails."""
import random

from .. import ldpcsim as D
from .. import ops as O
from ..core import fork_call
from ..seams import SIM, AllocPolicy, SimInterrupt, Tracer
from .c07 import measure, place

SHRINK_LISTS = ('ops',)
TIMEOUT = 120.0
CONFIG = ('cfg-constellation', 'cfg-siso', 'cfg-mimo', 'cfg-snr', 'siso', 'mimo', 'modulate', 'demod-soft')


def gen(r, tier, index):
    ops = []
    cfg = r.random() < 0.1
    for o in O.gen_ops(r, r.choice([1, 2, 4, 8]), config=cfg or r.random() < 0.3, only=CONFIG if cfg else None):
        ops.append(o + [r.choice([0, 0, 1, 2]), r.random() if r.random() < 0.2 else None])
    return {'world': r.randrange(1 << 30), 'ops': ops, 'poison': r.random() < 0.5, 'seed': r.randrange(1 << 30),
            'layout': r.random() < 0.5, 'big': r.random() < 0.25}


def arguments(call):
    out = {'kw': O.canon(call.kw)}
    for i, a in enumerate(call.args):
        c = out['arg%d' % i] = O.snapshot_obj(a)
        if isinstance(c, tuple) and c[0] == 'obj':
            c[2].pop('noise_std', None)                        # a link simulation sets the SNR of its channel
    return out


def run(sc, ctx):
    import numpy as np
    w = O.World(sc['world'], layout=random.Random(sc['seed']) if sc['layout'] else None)
    for i, (name, a, s, again, abort) in enumerate(sc['ops']):
        o = [name, a, s]
        spec = O.OPS[name]
        at = None
        if abort is not None:
            m = fork_call(measure, (w, o), 60)
            assert m[0] == 'ok', m
            at = place(m[1][3], abort) if m[1][3] and i & 1 else min(m[1][0], 1 + int(abort * m[1][0]))
        call = O.prepare(w, o)
        if sc['big'] and name in ('ldpc-decode', 'viterbi', 'demod-soft', 'map'):
            y = call.args[0]
            if y.dtype.kind in 'fc' and y.flags.writeable:
                y *= 3000                                      # far beyond what the decoders clip to
                ctx.probe('large-values')
        before = arguments(call)
        world = {k: O.snapshot_obj(v) for k, v in list(w.shared.items()) + list(w.own.items())}
        extra = [O.snapshot_obj(x) for x in call.objs]
        SIM.alloc = AllocPolicy('junk', i) if sc['poison'] else None
        results = []
        for rep in range(again + 1):
            O.stream(o)
            what = 'returned'
            try:
                if at is not None and rep == 0:
                    with Tracer(at=at, exc=SimInterrupt('injected')):
                        call.run()
                else:
                    call.run()
                results.append(('ok', call.value(), O.stream_state(np)))
            except SimInterrupt:
                SIM.fired('interrupt')
                what = 'was interrupted'
            except Exception as e:
                what = 'failed'
                SIM.fired('failed-call')
                results.append(('exc', type(e).__name__, str(e)))
                ctx.check(spec['fails'], 'unexpected-exception', '%s: %s: %s' % (o, type(e).__name__, e))
            alloc, SIM.alloc = SIM.alloc, None
            d = O.diff(before, arguments(call), more=True)
            ctx.check(d is None, 'argument-altered', lambda: '%s (%s, use %d): %s' % (o, what, rep + 1, d))
            d = O.diff(extra, [O.snapshot_obj(x) for x in call.objs], more=True)
            ctx.check(d is None, 'object-altered', lambda: '%s (%s, use %d): %s' % (o, what, rep + 1, d))
            if not spec['config']:
                now = {k: O.snapshot_obj(v) for k, v in list(w.shared.items()) + list(w.own.items()) if k in world}
                d = O.diff(world, now, more=True)
                ctx.check(d is None, 'object-altered', lambda: '%s (%s, use %d): shared %s' % (o, what, rep + 1, d))
            SIM.alloc = alloc
        SIM.alloc = None
        if len(results) > 1:
            ctx.probe('decoded-again')
            for x in results[1:]:
                d = O.outcome_diff(results[0], x)
                ctx.check(d is None, 'second-use-differs', lambda: '%s on the same data: %s' % (o, d))
        ctx.probe('op-' + name)
    D.cleanup(w.dir)
    ctx.state([x[:2] + x[3:] for x in sc['ops']])
    ctx.nontrivial = True
