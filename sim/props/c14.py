"""C14: turbo links: exact posterior decoding and error-free delivery."""
from .. import convsim as V
from ..seams import SIM, AllocPolicy

SHRINK_LISTS = ('faults',)
SHRINK_INTS = (('len', 1), ('iters', 1))

SYS = [
    {'mem': [2], 'g': [[1, 7]], 'fb': [[5]]}, {'mem': [2], 'g': [[1, 5]], 'fb': [[7]]},
    {'mem': [3], 'g': [[1, 0o15]], 'fb': [[0o13]]}, {'mem': [1], 'g': [[1, 3]], 'fb': [[3]]},
    {'mem': [3], 'g': [[1, 0o17]], 'fb': [[0o15]]}, {'mem': [2], 'g': [[1, 6]], 'fb': [[7]]},
    {'mem': [2], 'g': [[1, 7]], 'fb': None}, {'mem': [1], 'g': [[1, 2]], 'fb': [[3]]},
    {'mem': [4], 'g': [[1, 0o23]], 'fb': [[0o31]]},
]


def gen_sys(r):
    if r.random() < 0.7:
        c = dict(r.choice(SYS))
    else:
        m = r.choice([1, 2, 2, 3])
        c = {'mem': [m], 'g': [[1, r.randrange(1, 2 ** (m + 1))]], 'fb': [[1 | r.randrange(2 ** m) << 1]] if r.random() < 0.8 else None}
    c['fmt'] = r.choice(['MSB', 'MSB', 'LSB', 'Matlab'])
    c['style'] = 'legacy' if c['fb'] and c['g'][0][1] & 1 and r.random() < 0.5 else 'matrix'
    c['type'] = 'rsc' if c['fb'] and (c['style'] == 'legacy' or r.random() < 0.6) else 'default'
    return c


def gen(r, tier, index):
    mode = r.choice(['map', 'map', 'turbo', 'turbo', 'encode', 'clean'])
    n = r.choice([1, 2, 3, r.randrange(2, 9), r.randrange(2, 9), r.randrange(4, 24)])
    if mode == 'map' and r.random() < 0.3:
        n = r.randrange(9, 40)
    if mode == 'encode':
        n = r.randrange(1, 60)
    faults = []
    for _ in range(r.choice([0, 1, 2, 4, 8])):
        faults.append([r.randrange(3 * n), r.choice(['flip', 'erase', 'impulse', 'shift']), r.choice([0.3, 1.0, 2.0, 5.0, -4.0, 8.0])])
    return {'mode': mode, 'code': gen_sys(r), 'code2': gen_sys(r), 'len': n, 'msgseed': r.randrange(1 << 30),
            'seed': r.randrange(1 << 31), 'nv': r.choice([0.02, 0.1, 0.3, 0.5, 1.0, 2.0]) if mode != 'clean' else r.choice([0.001, 0.01, 0.05, 0.2, 0.3]),
            'noise': r.choice([0, 0.2, 0.5, 1.0]), 'prior': r.choice(['zeros', 'zeros', 'random', 'strong', 'none']),
            'iters': r.choice([1, 1, 2, 3, 4, 6]), 'decmode': r.choice(['decode', 'decode', 'compute']), 'faults': faults,
            'mdtype': r.choice(['int64', 'int64', 'int8', 'uint8']), 'poison': r.random() < 0.4}


def ref_map(np, code, xs, ys, nv, L):
    """Posterior LLR of every bit by forward-backward recursions in the log domain (vectorised, own tables)."""
    nxt, out = code.tables()
    nxt = np.array(nxt)
    o = 2.0 * np.array(out) - 1                                   # S x 2 x n
    T = len(xs)
    nS = len(nxt)
    lp = np.stack([-np.logaddexp(0, L), -np.logaddexp(0, -np.asarray(L))], 0)
    g = np.array([-((xs[t] - o[:, :, 0]) ** 2 + (ys[t] - o[:, :, 1]) ** 2) / (2 * nv) for t in range(T)]).reshape(T, nS, 2)
    beta = np.zeros((T + 1, nS))
    for t in range(T - 1, -1, -1):
        b = g[t] + lp[:, t][None] + beta[t + 1][nxt]
        beta[t] = np.logaddexp(b[:, 0], b[:, 1])
        beta[t] -= beta[t].max()
    al = np.full(nS, -np.inf)
    al[0] = 0
    res = np.zeros(T)
    for t in range(T):
        a = al[:, None] + g[t] + lp[:, t][None] + beta[t + 1][nxt]
        res[t] = np.logaddexp.reduce(a[:, 1]) - np.logaddexp.reduce(a[:, 0])
        f = al[:, None] + g[t] + lp[:, t][None]
        new = np.full(nS, -np.inf)
        for s in range(nS):
            for u in (0, 1):
                new[nxt[s, u]] = np.logaddexp(new[nxt[s, u]], f[s, u])
        al = new - new.max()
    return res


def brute(np, code, xs, ys, nv, L):
    """Posterior LLRs by summing over every message."""
    T = len(xs)
    num = np.full(T, -np.inf)
    den = np.full(T, -np.inf)
    for m in range(2 ** T):
        bits = [m >> i & 1 for i in range(T)]
        c, _ = code.encode(bits)
        s = 2.0 * np.array(c).reshape(T, -1) - 1
        lp = -(((xs - s[:, 0]) ** 2).sum() + ((ys - s[:, 1]) ** 2).sum()) / (2 * nv)
        lp += sum(-np.logaddexp(0, -L[i] if bits[i] else L[i]) for i in range(T))
        for i in range(T):
            if bits[i]:
                num[i] = np.logaddexp(num[i], lp)
            else:
                den[i] = np.logaddexp(den[i], lp)
    return num - den


def disturb(np, sc, rng, streams):
    out = [2.0 * np.array(s, dtype=float) - 1 for s in streams]
    flat = np.concatenate(out)
    flat = flat + sc['noise'] * rng.standard_normal(flat.size)
    hit = 0
    for pos, what, strength in sc['faults']:
        i = pos % flat.size
        hit += 1
        if what == 'flip':
            flat[i] = -flat[i]
        elif what == 'erase':
            flat[i] = 0
        elif what == 'impulse':
            flat[i] = strength
        else:
            flat[i] += strength / 4
    k = len(streams[0])
    return [flat[i * k:(i + 1) * k] for i in range(len(streams))], hit


def run(sc, ctx):
    import random
    import numpy as np
    from commpy.channelcoding import convcode as cc, turbo, interleavers
    if sc['poison']:
        SIM.alloc = AllocPolicy('junk', sc['seed'])
    r = random.Random(sc['msgseed'])
    rng = np.random.RandomState(sc['seed'] % (2 ** 32))
    N = sc['len']
    msg = [r.randrange(2) for _ in range(N)]
    code = V.Code(sc['code'])
    tr = ctx.lib(code.trellis, np, cc)
    nv = sc['nv']
    if sc['prior'] in ('zeros', 'none'):
        L = np.zeros(N)
    else:
        L = rng.standard_normal(N) * (2 if sc['prior'] == 'random' else 15)
    ref_coded, _ = code.encode(msg)
    if sc['mode'] == 'map':
        (xs, ys), hit = disturb(np, sc, rng, [ref_coded[0::2], ref_coded[1::2]])
        ctx.fault('channel-fault', hit)
        res = ctx.lib(turbo.map_decode, xs.copy(), ys.copy(), tr, nv, L.copy(), sc['decmode'])
        ctx.check(len(res) == 2 and len(res[0]) == N and len(res[1]) == N, 'shape', 'map_decode returned %d arrays' % len(res))
        got = np.asarray(res[0], dtype=float)
        want = ref_map(np, code, xs, ys, nv, L)
        if N <= 8:
            b = brute(np, code, xs, ys, nv, L)
            if not np.allclose(b, want, rtol=1e-7, atol=1e-7):
                raise AssertionError('harness: reference recursions differ from the sum over all messages')
            ctx.probe('brute-force')
        tol = 1e-6 * (1 + np.abs(want))
        ctx.check(np.all(np.abs(got - want) <= tol), 'wrong-posterior', lambda: 'bit %d: L-value %r, the exact posterior is %r' % (
            int(np.argmax(~(np.abs(got - want) <= tol))), float(got[np.argmax(~(np.abs(got - want) <= tol))]),
            float(want[np.argmax(~(np.abs(got - want) <= tol))])))
        if sc['decmode'] == 'decode':
            for i in range(N):
                ctx.check(abs(want[i]) < 1e-6 or int(res[1][i]) == int(want[i] > 0), 'wrong-decision', 'bit %d decided %s with L-value %r' % (
                    i, res[1][i], float(want[i])))
        ctx.probe('map')
        ctx.state('map', sc['code'], N, np.round(want, 2).tolist())
        return
    il = interleavers.RandInterlv(N, sc['seed'])
    perm = [int(x) for x in il.interlv(np.arange(N))]
    two = sc['code2'] if sc['mode'] == 'encode' else sc['code']
    code2 = V.Code(two)
    tr2 = tr if two is sc['code'] else ctx.lib(code2.trellis, np, cc)
    out = ctx.lib(turbo.turbo_encode, np.array(msg, dtype=sc['mdtype']), tr, tr2, il)
    ctx.check(len(out) == 3, 'shape', '%d streams' % len(out))
    c2, _ = code2.encode([msg[i] for i in perm])
    want = [msg, ref_coded[1::2], c2[1::2]]
    for name, a, b in zip(('systematic', 'first parity', 'second parity'), out, want):
        ctx.check([int(x) for x in a] == b, 'wrong-stream', '%s stream %s, expected %s' % (name, [int(x) for x in a], b))
    ctx.probe('encoded')
    if sc['mode'] == 'encode':
        ctx.state('enc', sc['code'], two, N)
        return
    if sc['mode'] == 'clean':
        s = [2.0 * np.array(x, dtype=float) - 1 for x in out]
        hit = 0
    else:
        s, hit = disturb(np, sc, rng, out)
    ctx.fault('channel-fault', hit)
    # reference: iterative exchange of extrinsic information
    inv = np.argsort(perm)
    L1 = L.copy() if sc['mode'] != 'clean' else np.zeros(N)
    prior = L1.copy()
    final = None
    for it in range(sc['iters']):
        e1 = ref_map(np, code, s[0], s[1], nv, L1) - L1
        L2 = e1[perm]
        final = ref_map(np, code, s[0][perm], s[2], nv, L2)
        L1 = (final - L2)[inv]
    final = final[inv]
    args = [x.copy() for x in s] + [tr, nv, sc['iters'], il]
    if sc['prior'] != 'none':
        args.append(prior.copy())
    dec = ctx.lib(turbo.turbo_decode, *args)
    ctx.check(len(dec) == N and set(int(b) for b in dec) <= {0, 1}, 'not-bits', 'decoded %s' % list(dec))
    tol = 1e-5 * max(1.0, float(np.abs(final).max()))
    for i in range(N):
        ctx.check(abs(final[i]) < tol or int(dec[i]) == int(final[i] > 0), 'wrong-decision', 'bit %d decided %d after %d iterations, the '
                  'exchange of extrinsic information gives %r' % (i, dec[i], sc['iters'], float(final[i])))
    ctx.probe('turbo')
    if sc['mode'] == 'clean' and np.all((final > tol) == np.array(msg, bool)) and np.all(np.abs(final) > tol):
        ctx.check([int(b) for b in dec] == msg, 'clean-channel-error', 'message %s decoded as %s' % (msg, list(dec)))
        ctx.probe('clean')
    elif [int(b) for b in dec] == msg and hit:
        ctx.probe('faults-corrected')
    ctx.time('map_passes', 2 * sc['iters'])
    ctx.state('turbo', sc['code'], N, sc['iters'], np.round(final, 2).tolist())
