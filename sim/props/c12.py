"""C12: puncturing loses only punctured positions, depuncturing restores the rest, punctured links correct faults."""
from .. import convsim as V
from ..seams import SIM, AllocPolicy
from .c11 import gen_faults, amplitudes

SHRINK_LISTS = ('faults', 'pattern')
SHRINK_INTS = (('steps', 1), ('cut', 0))

STD = [[1, 1, 1, 0], [1, 1, 1, 0, 0, 1], [1, 1, 1, 0, 0, 1, 1, 0, 0, 1], [1, 1, 0, 1], [1, 0, 1, 1, 1, 1], [1, 1, 1, 1, 1, 0],
       [1], [0, 1], [1, 0]]


def gen(r, tier, index):
    while True:
        c = V.gen_code(r, max_states=r.choice([4, 8, 8]), ks=(1, 1, 2))
        code = V.Code(c)
        if code.proper():
            break
    steps = r.choice([0, 1, 2, 3, r.randrange(1, 9), r.randrange(4, 30), r.randrange(4, 30)])
    if r.random() < 0.6:
        pattern = r.choice(STD)
    else:
        pattern = [int(r.random() < 0.75) for _ in range(r.randrange(1, 14))]
    n_pos = (steps + code.total) * code.n
    kind = r.choice(['soft', 'unquantized'])
    return {'code': c, 'steps': steps, 'pattern': pattern, 'kind': kind, 'dtype': 'float64',
            'msgseed': r.randrange(1 << 30), 'ampseed': r.randrange(1 << 30),
            'amp': r.choice(['unit', 'unit', 'mixed']), 'term': r.choice(['term', 'term', 'cont']),
            'cut': r.choice([0, 0, 0, 1, 2, r.randrange(0, 40)]), 'ptype': r.choice(['list', 'array', 'bool', 'float', 'tuple']),
            'vtype': r.choice(['float64', 'int64', 'int8', 'bool', 'complex128', 'float32']),
            'depth': r.choice([None, 'full', 'full', 5 * code.total, 10 * code.total]),
            'faults': gen_faults(r, code, n_pos, kind, r.choice([0, 1, 2, 3])), 'poison': r.random() < 0.3}


def run(sc, ctx):
    import random
    import numpy as np
    from commpy.channelcoding import convcode as cc
    if sc['poison']:
        SIM.alloc = AllocPolicy('junk', sc['ampseed'])
    pat = sc['pattern']
    if not pat:
        return
    N = len(pat)
    pv = {'list': list, 'tuple': tuple, 'array': np.array, 'bool': lambda p: np.array(p, bool), 'float': lambda p: np.array(p, float)}[sc['ptype']](pat)
    code = V.Code(sc['code'])
    k, n = code.k, code.n
    r = random.Random(sc['msgseed'])
    msg = [r.randrange(2) for _ in range(sc['steps'] * k)]
    tr = ctx.lib(code.trellis, np, cc)
    coded = ctx.lib(cc.conv_encode, np.array(msg, int), tr, sc['term'])
    coded_l = [int(b) for b in coded]
    want = [b for i, b in enumerate(coded_l) if pat[i % N]]
    pm = np.array([pat])
    pcoded = ctx.lib(cc.conv_encode, np.array(msg, int), tr, sc['term'], pm)
    ctx.check([int(b) for b in pcoded] == want, 'encoder-puncturing', 'encoder with pattern %s returns %s, expected %s (unpunctured %s)' % (
        pat, pcoded.tolist(), want, coded_l))
    alone = ctx.lib(cc.puncturing, coded, pv)
    ctx.check([int(b) for b in alone] == want, 'stand-alone-puncturing', 'puncturing by %s returns %s, expected %s' % (pat, list(alone), want))
    ctx.probe('punctured')
    if len(coded_l) % N:
        ctx.probe('partial-period')
    # any stream, distinct values, any length
    m = max(0, len(coded_l) - sc['cut'])
    vals = np.array([(i * 7 + 3) % 120 + 1 for i in range(m)]).astype(sc['vtype'])
    if sc['vtype'] == 'complex128':
        vals = vals * (1 - 2j)
    p = ctx.lib(cc.puncturing, vals, pv)
    keep = [vals[i] for i in range(m) if pat[i % N]]
    ctx.check(len(p) == len(keep) and all(a == b for a, b in zip(p, keep)), 'stand-alone-puncturing', 'pattern %s length %d: %s' % (pat, m, list(p)[:20]))
    if sc['vtype'] != 'complex128':
        d = ctx.lib(cc.depuncturing, p, pv, m)
        ctx.check(len(d) == m, 'wrong-length', 'depuncturing to %d returns %d' % (m, len(d)))
        exp = [float(vals[i]) if pat[i % N] else 0.0 for i in range(m)]
        ctx.check([float(x) for x in d] == exp, 'wrong-position', 'depuncturing %s by %s gives %s' % (list(p)[:20], pat, list(d)[:30]))
    if not len(want):
        return
    # the punctured link
    n_steps = V.library_steps(code, len(coded_l))
    depth = {'full': n_steps + 5, None: None}.get(sc['depth'], sc['depth'])
    eff = depth if depth is not None else min(5 * code.total, len(coded_l) // n * k)
    eff = max(2, min(eff, n_steps + 1))
    _, state = code.encode(msg)
    if sc['term'] == 'term':
        rest = len(coded_l) // n - len(msg) // k
        if sc['code']['type'] == 'rsc':
            if k > 1:
                return
            state = code.zero()
        else:
            for _ in range(rest):
                state = code.step(state, (0,) * k)[0]
    truth = V.true_values(code, coded_l, state, n_steps)
    amp = amplitudes(sc)
    where = [i for i in range(len(coded_l)) if pat[i % N]]

    def quality(faults):
        full = V.place_faults(np, code, coded_l, faults, sc['kind'], amp)
        full[[i for i in range(len(full)) if not pat[i % N]]] = 0
        v = V.advantage(np, sc['kind'], full, truth, n, n_steps)
        return full[where], V.margin(np, code, v, len(msg) // k, eff, n_steps)
    kept = []
    if not msg:
        return
    rx, mg = quality([])
    if mg <= 1e-6:
        return
    ctx.probe('punctured-clean-decodable')
    for f in sc['faults'][:12]:
        rx2, m2 = quality(kept + [f])
        if m2 > 1e-6:
            kept.append(f)
            rx, mg = rx2, m2
    ctx.fault('channel-fault', len(kept))
    if not all(pat):
        ctx.fault('punctured-position', len(coded_l) - len(where))
    if kept:
        ctx.probe('punctured-faults-corrected')
    dep = ctx.lib(cc.depuncturing, rx, pv, len(coded_l))
    dec = ctx.lib(cc.viterbi_decode, dep, tr, depth, sc['kind'])
    ctx.check([int(b) for b in dec][:len(msg)] == msg, 'not-corrected', 'pattern %s, %d faults (margin %.3g): %s decoded as %s' % (
        pat, len(kept), mg, msg, dec.tolist()[:len(msg)]))
    ctx.state(sc['code'], pat, kept, sc['term'])
    ctx.time('trellis_steps', n_steps)
