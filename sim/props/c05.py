"""C05: results depend only on arguments, configuration and seed."""
import gc
import random

from .. import ldpcsim as D
from .. import ops as O
from ..seams import SIM, AllocPolicy

SHRINK_LISTS = ('ops',)
TIMEOUT = 90.0


BRIEF = [['brief-trellis'], ['brief-trellis', 'brief-turbo'], ['brief-modem'], ['brief-ldpc'], ['brief-channel'], ['brief-link']]


def gen(r, tier, index):
    if r.random() < 0.1:                                      # objects of one family come and go at the same addresses
        return {'world': r.randrange(1 << 30), 'ops': O.gen_ops(r, 16, only=r.choice(BRIEF)), 'poison': None, 'ref_fill': None,
                'scribble': False, 'args': 'fresh', 'seed': r.randrange(1 << 30), 'collect': True}
    return {'world': r.randrange(1 << 30), 'ops': O.gen_ops(r, r.choice([1, 2, 4, 8, 8, 16])),
            'poison': r.choice(['junk', 'junk', None]), 'ref_fill': r.choice(['zero', 'junk', None]),
            'scribble': r.random() < 0.5, 'args': r.choice(['fresh', 'pool', 'pool', 'layout']), 'seed': r.randrange(1 << 30),
            'collect': r.random() < 0.1}


def run(sc, ctx):
    w = O.World(sc['world'], pool={} if sc['args'] == 'pool' else None,
                layout=random.Random(sc['seed']) if sc['args'] == 'layout' else None)
    values = []
    refs = O.references(sc['world'], sc['ops'], sc['ref_fill'])
    SIM.alloc = AllocPolicy(sc['poison'], sc['seed']) if sc['poison'] else None
    for i, o in enumerate(sc['ops']):
        ref = refs[i]
        got, call = O.do(w, o)
        fails = O.OPS[o[0]]['fails']
        ctx.check(fails or ref[0] == 'ok', 'unexpected-exception', '%s fails alone: %s' % (o[0], ref[1:]))
        ctx.check(not fails or ref[0] == 'exc', 'accepted', 'invalid call %s is accepted' % (o,))
        d = O.outcome_diff(ref, got)
        ctx.check(d is None, 'depends-on-history', lambda: 'operation %d (%s) after %s: %s' % (
            i, o, [x[0] for x in sc['ops'][:i]], d))
        values.append(got)
        ctx.probe('op-' + o[0])
        if O.OPS[o[0]]['config'] and got[0] == 'ok':
            ctx.probe('reconfigured')
        elif got[0] == 'ok' and sc['scribble'] and o[0] not in ('ldpc-build',):
            O.scribble(call.res)
        if got[0] == 'exc':
            SIM.fired('failed-call')
        call = got = None
        if sc.get('collect'):
            gc.collect()                                      # addresses of dropped objects are handed out again
            SIM.fired('garbage-collection')
    D.cleanup(w.dir)
    if i:
        ctx.nontrivial = True
        ctx.probe('with-history')
    ctx.value = values
    ctx.state([(o[0], o[1]) for o in sc['ops']], sc['poison'], sc['args'])
