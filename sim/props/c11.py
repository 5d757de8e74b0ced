"""C11: convolutional links correct every fault pattern within the code distance."""
from .. import convsim as V
from ..seams import SIM, AllocPolicy

SHRINK_LISTS = ('faults', 'extra')
SHRINK_INTS = (('steps', 1),)


def gen_faults(r, code, n_pos, kind, n):
    out = []
    ev = V.min_event(code)
    for _ in range(n):
        mode = r.random()
        if mode < 0.55 and ev is not None and n_pos >= code.n:
            # hit the lightest error event where it hurts: about half of its support
            w, outs = ev
            start = r.choice([r.randrange(n_pos // code.n), max(0, n_pos // code.n - len(outs)), 0])
            sup = [(start + t) * code.n + j for t, o in enumerate(outs) for j, b in enumerate(o) if b]
            r.shuffle(sup)
            for p in sup[:max(1, (w - 1) // 2)]:
                out.append([p, 'flip', 0])
            if kind != "hard" and w % 2 == 0 and sup:
                out.append([sup[-1], r.choice(['erase', 'weak']), r.choice([0.25, 0.5])])
        else:
            p = r.randrange(max(1, n_pos)) if r.random() < 0.7 else n_pos - 1 - r.randrange(min(6, max(1, n_pos)))
            out.append([max(0, p), r.choice(['flip', 'flip', 'flip', 'erase', 'weak']), r.choice([0.25, 0.5, -0.5, 3])])
    return out


def gen(r, tier, index):
    while True:
        c = V.gen_code(r, max_states=r.choice([4, 8, 8, 16]) if tier == 'quick' else 32)
        code = V.Code(c)
        if code.proper() or c in ():
            break
    steps = r.choice([1, 2, 3, r.randrange(1, 9), r.randrange(4, 30), r.randrange(4, 30)])
    kind = r.choice(['hard', 'soft', 'unquantized'])
    term = r.choice(['term', 'term', 'term', 'cont'])
    n_pos = (steps + code.total) * code.n
    depth = r.choice([None, None, 'full', 'full', 'full', 2, 3, r.randrange(2, 12), 5 * code.total, steps, steps + 1,
                      steps + code.total, steps + 2 * code.total])
    amp = {'hard': ['unit'], 'unquantized': ['unit', 'unit', 'mixed'],
           'soft': ['unit', 'mixed', 'big', 'huge', 'inf']}[kind]
    sc = {'code': c, 'steps': steps, 'msgseed': r.randrange(1 << 30), 'msgstyle': r.choice(['random', 'random', 'zeros', 'ones']),
            'term': term, 'kind': kind, 'depth': depth, 'amp': r.choice(amp), 'ampseed': r.randrange(1 << 30),
            'dtype': r.choice({'hard': ['int64', 'float64', 'int8', 'uint8', 'bool', 'float32'],
                               'soft': ['float64', 'float64', 'float32', 'int8', 'int16', 'int64'],
                               'unquantized': ['float64', 'float64', 'float32']}[kind]),
            'mdtype': r.choice(['int64', 'int64', 'int8', 'uint8', 'bool']),
            'faults': gen_faults(r, code, n_pos, kind, r.choice([0, 1, 2, 3, 5])),
            'extra': gen_faults(r, code, n_pos, kind, r.choice([0, 1, 2])), 'poison': r.random() < 0.3,
            'twice': r.random() < 0.25}
    if kind == 'unquantized' and r.random() < 0.25:
        # a few samples of the right sign and of enormous strength: large metrics with small differences
        sc['dtype'] = 'float64'
        sc['faults'] = [[r.randrange(max(1, n_pos)), 'jam', r.choice([3000.0, 30000.0, 300000.0])]
                        for _ in range(r.choice([1, 1, 2, 4]))] + sc['faults']
    return sc


def amplitudes(sc):
    import random
    r = random.Random(sc['ampseed'])
    tab = [r.randrange(1, 9) for _ in range(256)]
    style = sc['amp']
    isint = sc['dtype'].startswith('int')
    if style == 'unit':
        return lambda i: 1.0
    if style == 'mixed':
        return (lambda i: float(tab[i % 256])) if sc['kind'] == 'soft' else (lambda i: tab[i % 256] / 4.0)
    if style == 'big':
        return lambda i: 20.0 * tab[i % 256] if sc['dtype'] != 'int8' else 12.0 * tab[i % 256]
    if style == 'huge':
        return lambda i: 500.0 if sc['dtype'] != 'int8' else 127.0
    return (lambda i: float('inf')) if not isint else (lambda i: 100.0)


def run(sc, ctx):
    import random
    import numpy as np
    from commpy.channelcoding import convcode as cc
    if sc['poison']:
        SIM.alloc = AllocPolicy('junk', sc['ampseed'])
    code = V.Code(sc['code'])
    k, n = code.k, code.n
    r = random.Random(sc['msgseed'])
    msg = [{'random': r.randrange(2), 'zeros': 0, 'ones': 1}[sc['msgstyle']] for _ in range(sc['steps'] * k)]
    tr = ctx.lib(code.trellis, np, cc)
    marr = np.array(msg, dtype=sc['mdtype'])
    coded = ctx.lib(cc.conv_encode, marr, tr, sc['term'])
    ref, state = code.encode(msg)
    ctx.check(np.ndim(coded) == 1 and len(coded) >= len(ref), 'wrong-length', '%s coded bits for %d message bits' % (np.shape(coded), len(msg)))
    coded = [int(b) for b in coded]
    ctx.check(coded[:len(ref)] == ref, 'wrong-code-sequence', 'encoder output %s, the polynomials give %s' % (coded[:len(ref)], ref))
    tail = coded[len(ref):]
    tin = []
    if sc['term'] == 'cont':
        ctx.check(not tail, 'wrong-length', '%d extra coded bits without termination' % len(tail))
    else:
        rsc = sc['code']['type'] == 'rsc'
        want = code.total if rsc else (code.total + code.total % k) // k if (code.total + code.total % k) % k == 0 else None
        if want is not None:
            ctx.check(len(tail) == want * n, 'wrong-length', '%d termination bits, expected %d' % (len(tail), want * n))
        for t in range(len(tail) // n):
            o = tuple(tail[t * n:(t + 1) * n])
            if rsc and code.fb and all((code.fb[i][j] & 1) == (i == j) for i in range(k) for j in range(k)):
                # the input that shifts zeros into every register
                cand = [u for u in code.inputs() if all(h[0] == 0 for h in code.step(state, u)[0] if h)]
                cand = [u for u in cand if code.step(state, u)[1] == o]
                ctx.check(cand, 'wrong-termination', 'termination step %d emits %s' % (t, o))
                u = cand[0]
            elif rsc:
                cand = [u for u in code.inputs() if code.step(state, u)[1] == o]
                ctx.check(cand, 'wrong-termination', 'termination step %d emits %s, not a code branch' % (t, o))
                if len(cand) > 1:
                    return                                    # inputs not identifiable
                u = cand[0]
            else:
                u = (0,) * k
                ctx.check(code.step(state, u)[1] == o, 'wrong-termination', 'termination step %d emits %s' % (t, o))
            state = code.step(state, u)[0]
            tin.extend(u)
        if len(tail) // n >= max(code.mem) and (sc['code']['fb'] is None or (rsc and k == 1)):
            ctx.check(state == code.zero(), 'not-terminated', 'the terminated stream ends in state %s' % (state,))
            ctx.probe('terminated')
    sent = msg + tin
    if not coded:
        return
    n_steps = V.library_steps(code, len(coded))
    depth = {'full': n_steps + 5, None: None}.get(sc['depth'], sc['depth'])
    eff = depth if depth is not None else min(5 * code.total, len(sent))
    eff = max(2, min(eff, n_steps + 1))
    truth = V.true_values(code, coded, state, n_steps)
    amp = amplitudes(sc)
    kind = sc['kind']

    def samples(faults):
        rx = V.place_faults(np, code, coded, faults, kind, amp)
        if kind == 'hard':
            rx = (rx > 0).astype(float)
        if sc['dtype'].startswith('int') or sc['dtype'] == 'uint8':
            rx = np.rint(rx)
            info = np.iinfo(sc['dtype'])
            rx = rx.clip(info.min, info.max)
        return rx

    def quality(faults):
        rx = samples(faults)
        v = V.advantage(np, kind, rx, truth, n, n_steps)
        return rx, V.margin(np, code, v, len(msg) // k, eff, n_steps)

    def decode(rx):
        arr = rx.astype(sc['dtype'])
        keep = arr.copy()
        dec = ctx.lib(cc.viterbi_decode, arr, tr, depth, kind)
        ctx.check(len(dec) == len(coded) // n * k, 'wrong-length', '%d decoded bits for %d coded bits' % (len(dec), len(coded)))
        ctx.check(set(int(b) for b in dec) <= {0, 1}, 'not-bits', 'decoded values %s' % sorted(set(dec.tolist())))
        if sc['twice']:
            again = ctx.lib(cc.viterbi_decode, keep, tr, depth, kind)
            ctx.check([int(b) for b in again] == [int(b) for b in dec], 'not-repeatable', 'decoding the same samples twice differs')
        return [int(b) for b in dec]

    kept = []
    rx, m = quality([])
    clean = m > 1e-6
    if clean:
        ctx.probe('clean-decodable')
        for f in sc['faults'][:16]:
            rx2, m2 = quality(kept + [f])
            if m2 > 1e-6:
                kept.append(f)
                rx, m = rx2, m2
        nf = int((np.sign(samples(kept)) != np.sign(samples([]))).sum())
        ctx.fault('channel-fault', nf)
        if nf:
            ctx.probe('faults-corrected')
        if any(f[1] == 'jam' for f in kept):
            ctx.probe('enormous-samples')
        dec = decode(rx)
        ctx.check(dec[:len(msg)] == msg, 'not-corrected', 'message %s decoded as %s with %d faults within the correction radius '
                  '(margin %.3g, depth %s, kind %s, dtype %s)' % (msg, dec[:len(msg)], nf, m, sc['depth'], kind, sc['dtype']))
        if kind == 'hard':
            ctx.state(sc['code'], nf, sc['term'], [f[0] for f in kept])
        else:
            ctx.state(sc['code'], nf, sc['term'], kind, round(m, 3))
    # beyond the radius: the full-depth decoder is still a maximum-likelihood decoder
    every = kept + sc['extra'] + sc['faults']
    if eff >= n_steps + 1 and every:
        rx = samples(every)
        dec = decode(rx)
        ms = V.costs(np, code, kind, rx, n_steps)
        ns = len(dec) // k
        got, s = V.path_cost(np, code, ms, dec)
        rest = V.best_path(np, code, ms[ns:], s).min() if n_steps > ns else 0.0
        best = V.best_path(np, code, ms).min()
        ctx.check(got + rest <= best + 1e-6 * max(1.0, abs(best)), 'not-maximum-likelihood',
                  'decoded path has metric %.9g, the best path %.9g (kind %s)' % (got + rest, best, kind))
        ctx.probe('beyond-radius')
        ctx.fault('channel-fault-beyond-radius', len(every))
    ctx.time('trellis_steps', n_steps)
