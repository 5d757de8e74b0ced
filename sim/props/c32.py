"""C32: damage stays where it hit, and nothing of it remains afterwards."""
import os

from .. import convsim as V
from .. import ldpcsim as L
from ..seams import SIM, AllocPolicy
from .c14 import gen_sys

SHRINK_LISTS = ('ops', 'ops.0.damage')
SHRINK_INTS = (('ops.0.n', 1),)
TIMEOUT = 60.0

SOFT = ['nan', 'inf', '-inf', 'huge', 'zero', 'negate', 'other']
KINDS = {'modulate': 'bits', 'hard': 'complex', 'soft': 'complex', 'ofdm_tx': 'complex', 'ofdm_rx': 'complex', 'bp': 'real', 'ldpc_encode': 'bits',
         'viterbi': 'code', 'viterbi_hard': 'bits', 'interlv': 'real', 'deinterlv': 'real', 'puncture': 'real', 'depuncture': 'real',
         'siso': 'complex', 'mimo': 'complex', 'conv_encode': 'bits', 'turbo_encode': 'bits', 'dec2bit': 'int', 'offset': 'complex',
         'upsample': 'real', 'bsc': 'bits', 'link': 'frames', 'turbo': 'recover', 'map': 'recover', 'detect': 'recover'}
WEIGHT = {'viterbi': 3, 'bp': 3, 'soft': 2, 'hard': 2, 'mimo': 2, 'ofdm_rx': 2, 'conv_encode': 2, 'link': 2}


def gen(r, tier, index):
    names = [k for k in KINDS for _ in range(WEIGHT.get(k, 1))]
    ops = []
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        name = r.choice(names)
        n = r.choice([1, 2, 3, 5, r.randrange(2, 14), r.randrange(4, 40)])
        k = r.choice([1, 1, 2, 3, 6])
        style = r.choice(['spread', 'burst', 'first', 'last'])
        start = r.randrange(1000)
        dmg = []
        for j in range(k):
            pos = {'spread': r.randrange(1000), 'burst': start + j, 'first': j, 'last': -1 - j}[style]
            dmg.append([pos, r.choice(SOFT)])
        ops.append({'name': name, 'n': n, 'seed': r.randrange(1 << 30), 'damage': dmg, 'v': r.randrange(1 << 16)})
    while True:
        c = V.gen_code(r, max_states=8, ks=(1, 1, 2))
        if V.Code(c).proper():
            break
    return {'ops': ops, 'conv': c, 'rsc': gen_sys(r), 'ldpc': L.gen_matrix(r, square_inv=True), 'modem': r.choice(['psk2', 'psk4', 'psk8', 'qam4', 'qam16', 'qam64']),
            'poison': r.random() < 0.4, 'seed': r.randrange(1 << 30)}


def damage(np, x, plan, kind, rng):
    """-> damaged copy of the 1-D array x, positions whose value changed"""
    y = x.copy()
    hit = []
    for pos, what in plan:
        if not len(x):
            break
        i = pos % len(x) if pos >= 0 else max(0, len(x) + pos)
        old = y[i]
        if kind in ('bits', 'frames'):
            y[i] = 1 - x[i]
        elif kind == 'int':
            y[i] = (x[i] + 1 + rng.randint(3)) % 256
        else:
            y[i] = {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf, 'huge': 1e200 if kind != 'complex' else 1e30, 'zero': 0.0, 'negate': -x[i],
                    'other': x[i] + 3 * rng.standard_normal()}[what]
        if not (y[i] == old):
            hit.append(i)
    return y, sorted(set(hit))


class Objects:
    def __init__(self, np, sc, ctx):
        from commpy.modulation import PSKModem, QAMModem
        from commpy.channelcoding import convcode as cc, ldpc
        self.np = np
        m = sc['modem']
        self.modem = ctx.lib(PSKModem if m[:3] == 'psk' else QAMModem, int(m[3:]))
        self.code = V.Code(sc['conv'])
        self.trellis = ctx.lib(self.code.trellis, np, cc)
        self.sys = V.Code(sc['rsc'])
        self.rsc = ctx.lib(self.sys.trellis, np, cc)
        d = L.rewrite_cost_dir()
        try:
            path = os.path.join(d, 'code.txt')
            with open(path, 'w') as f:
                f.write(L.text_of(sc['ldpc']))
            self.par = ctx.lib(ldpc.get_ldpc_code_params, path)
        finally:
            L.cleanup(d)
        self.nv = sc['ldpc']['nv']
        self.kb = self.nv - len(sc['ldpc']['rows'])


def build(np, o, op, rng):
    """-> (function of the (1-D) input, input, reach: input position -> output positions it may alter, strict)

    strict: the damaged call must not raise either.
    """
    from commpy import channels, modulation as M, impairments, utilities, links
    from commpy.channelcoding import convcode as cc, ldpc, turbo, interleavers
    name, n, v = op['name'], op['n'], op['v']
    bps = o.modem.num_bits_symbol
    cplx = lambda k: rng.standard_normal(k) + 1j * rng.standard_normal(k)
    flat = lambda a: np.asarray(a).reshape(-1)
    span = lambda i, w: range(i * w, (i + 1) * w)
    if name == 'modulate':
        return o.modem.modulate, rng.randint(0, 2, n * bps), lambda i: [i // bps]
    if name == 'hard':
        return lambda x: o.modem.demodulate(x, 'hard'), o.modem.modulate(rng.randint(0, 2, n * bps)) + 0.2 * cplx(n), lambda i: span(i, bps)
    if name == 'soft':
        nv = [0.01, 0.3, 2.0][v % 3]
        return lambda x: o.modem.demodulate(x, 'soft', nv), o.modem.modulate(rng.randint(0, 2, n * bps)) + 0.2 * cplx(n), lambda i: span(i, bps)
    if name in ('ofdm_tx', 'ofdm_rx'):
        nfft = [8, 16, 12, 32][v % 4]
        nsc = 2 * (1 + v // 4 % ((nfft - 1) // 2))
        cp = [0, 1, nfft // 4, nfft // 2][v // 64 % 4]
        n = min(n, 6)
        if name == 'ofdm_tx':
            return lambda x: M.ofdm_tx(x.reshape(n, nsc).T, nfft, nsc, cp), cplx(n * nsc), lambda i: span(i // nsc, nfft + cp)
        w = nfft + cp
        return lambda x: flat(M.ofdm_rx(x, nfft, nsc, cp).T), cplx(n * w), lambda i: span(i // w, nsc) if i % w >= cp else []
    if name == 'bp':
        nb = 1 + n % 4
        alg = ['SPA', 'MSA'][v % 2]
        its = 1 + v // 2 % 5

        def fn(x):
            d, l = ldpc.ldpc_bp_decode(x, o.par, alg, its)
            return np.concatenate((flat(np.asarray(d).reshape(o.nv, nb).T).astype(float), flat(np.asarray(l).reshape(o.nv, nb).T)))
        return fn, 2 * rng.standard_normal(nb * o.nv), lambda i: list(span(i // o.nv, o.nv)) + list(span(nb + i // o.nv, o.nv))
    if name == 'ldpc_encode':
        nb = 1 + n % 4
        return (lambda x: flat(np.asarray(ldpc.triang_ldpc_systematic_encode(x, o.par)).reshape(o.nv, nb).T), rng.randint(0, 2, nb * o.kb),
                lambda i: [i // o.kb * o.nv + i % o.kb] + list(range(i // o.kb * o.nv + o.kb, (i // o.kb + 1) * o.nv)))
    if name in ('viterbi', 'viterbi_hard'):
        k, nn = o.code.k, o.code.n
        kind = 'hard' if name == 'viterbi_hard' else ['soft', 'unquantized'][v % 2]
        depth = [2, 3, 4, 6, 9, None][v // 2 % 6]
        n = max(n, 4) if depth is None else n + depth
        coded = cc.conv_encode(rng.randint(0, 2, n * k), o.trellis, 'cont')
        x = coded if kind == 'hard' else (2.0 * coded - 1) * (1 + rng.random_sample(len(coded)))
        if kind == 'hard':
            x = x.astype(int)
        D = depth or 5 * o.code.total
        return (lambda y: cc.viterbi_decode(y, o.trellis, depth, kind), x,
                lambda i: range(max(0, i // nn - D) * k, n * k))
    if name in ('interlv', 'deinterlv'):
        il = interleavers.RandInterlv(n, v)
        p = [int(a) for a in il.interlv(np.arange(n))]           # output j holds input p[j]
        if name == 'interlv':
            return il.interlv, rng.standard_normal(n), lambda i: [p.index(i)]
        return il.deinterlv, rng.standard_normal(n), lambda i: [p[i]]
    if name in ('puncture', 'depuncture'):
        pat = [int(c) for c in bin(v | 1)[2:][:1 + v % 9]]
        kept = [i for i in range(n) if pat[i % len(pat)]]
        if name == 'puncture':
            return lambda x: cc.puncturing(x, np.array(pat)), rng.standard_normal(n), lambda i: [kept.index(i)] if i in kept else []
        return lambda x: cc.depuncturing(x, np.array(pat), n), rng.standard_normal(len(kept)), lambda i: [kept[i]]
    if name == 'siso':
        ch = channels.SISOFlatChannel(0.3, [(1 + 0j, 0), (0.6 + 0j, 0.64), (0j, 1)][v % 3])

        def fn(x):
            np.random.seed(v)
            out = ch.propagate(x)
            return np.concatenate((out, ch.unnoisy_output, ch.noises, ch.channel_gains))
        return fn, cplx(n), lambda i: [i, n + i]
    if name == 'mimo':
        nt, nr = [(1, 2), (2, 2), (2, 3), (3, 3), (3, 2)][v % 5]
        ch = channels.MIMOFlatChannel(nt, nr, 0.3)
        [lambda: ch.uncorr_rayleigh_fading(complex), lambda: ch.expo_corr_rayleigh_fading(1j, -1 + 0j),
         lambda: ch.uncorr_rician_fading(np.ones((nr, nt), complex), 2)][v // 5 % 3]()
        vecs = -(-n // nt)

        def fn(x):
            np.random.seed(v)
            out = ch.propagate(x)
            return np.concatenate((flat(out), flat(ch.unnoisy_output), flat(ch.noises), flat(ch.channel_gains)))
        return fn, cplx(n), lambda i: list(span(i // nt, nr)) + list(span(vecs + i // nt, nr))
    if name == 'conv_encode':
        k, nn = o.code.k, o.code.n
        term = ['term', 'cont'][v % 2]
        x = rng.randint(0, 2, n * k)
        total = len(cc.conv_encode(x, o.trellis, term))
        if o.code.c['fb'] is None:
            m = max(o.code.mem)
            return (lambda y: cc.conv_encode(y, o.trellis, term), x,
                    lambda i: range(i // k * nn, min(total, (i // k + m + 1) * nn)))
        return lambda y: cc.conv_encode(y, o.trellis, term), x, lambda i: range(i // k * nn, total)
    if name == 'turbo_encode':
        il = interleavers.RandInterlv(n, v)
        p = [int(a) for a in il.interlv(np.arange(n))]
        return (lambda x: np.concatenate([np.asarray(s)[:n] for s in turbo.turbo_encode(x, o.rsc, o.rsc, il)]), rng.randint(0, 2, n),
                lambda i: [i] + list(range(n + i, 2 * n)) + list(range(2 * n + p.index(i), 3 * n)))
    if name == 'dec2bit':
        w = 8 + v % 5
        return lambda x: utilities.dec2bitarray(x, w), rng.randint(0, 256, n), lambda i: span(i, w)
    if name == 'offset':
        return lambda x: impairments.add_frequency_offset(x, 1e3, 10.0 * (v % 17)), cplx(n), lambda i: [i]
    if name == 'upsample':
        f = 1 + v % 5
        return lambda x: utilities.upsample(x, f), rng.standard_normal(n), lambda i: [i * f]
    if name == 'bsc':
        def fn(x):
            np.random.seed(v)
            a = channels.bsc(x, 0.3)
            np.random.seed(v)
            return np.concatenate((a, channels.bec(x, 0.3)))
        return fn, rng.randint(0, 2, n), lambda i: [i, n + i]
    if name == 'link':
        n = min(n, 6)
        mod = o.modem

        def fn(flags):
            """flags[j] = 1: transmission j is wiped out on its way"""
            np.random.seed(v)
            ch = channels.SISOFlatChannel(None, (1 + 0j, 0))
            state = {'j': -1}
            orig = ch.propagate

            def propagate(msg):
                state['j'] += 1
                out = orig(msg)
                if flags[state['j'] % n]:
                    what = op['damage'][0][1] if op['damage'] else 'nan'
                    out = out * {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf, 'huge': 1e30, 'zero': 0.0}.get(what, -1.0)
                return out
            ch.propagate = propagate
            model = links.LinkModel(mod.modulate, ch, lambda y, h, c, nv: mod.demodulate(y, ['hard', 'soft'][v % 2], nv), bps, mod.constellation, mod.Es,
                                    (lambda b: b) if v % 2 == 0 else (lambda b: (b > 0).astype(int)))
            res = model.link_performance_full_metrics([4 + v % 9, 12], n, 0, 2 * bps, stop_on_surpass_error=False)
            return np.concatenate([flat(a) for a in res[1:]])
        # two SNRs; bit errors, chunk errors and chunk counts of every transmission
        return fn, np.zeros(n, int), lambda i: [i, n + i, 2 * n + i, 3 * n + i]
    if name == 'turbo':
        n = min(n, 8)
        il = interleavers.RandInterlv(n, v)
        return (lambda x: turbo.turbo_decode(x[:n], x[n:2 * n], x[2 * n:], o.rsc, 0.4, 2, il), rng.standard_normal(3 * n), None)
    if name == 'map':
        n = min(n, 10)
        return lambda x: turbo.map_decode(x[:n], x[n:], o.rsc, 0.5, np.zeros(n))[0], rng.standard_normal(2 * n), None
    H = cplx(4).reshape(2, 2)
    det = [lambda x: M.mimo_ml(x, H, o.modem.constellation), lambda x: M.kbest(x, H, o.modem.constellation, 4),
           lambda x: M.best_first_detector(x, H, o.modem.constellation, (4,), 0.5, lambda s: o.modem.demodulate(s, 'hard'), 30.)][v % 3]
    if o.modem.m > 16:
        return lambda x: o.modem.demodulate(x, 'hard'), cplx(2), None
    return det, cplx(2), None


def run(sc, ctx):
    import numpy as np
    if sc['poison']:
        SIM.alloc = AllocPolicy('junk', sc['seed'])
    np.seterr(all='ignore')
    o = Objects(np, sc, ctx)
    for op in sc['ops']:
        rng = np.random.RandomState(op['seed'] % (2 ** 32))
        fn, x, reach = build(np, o, op, rng)
        x = np.asarray(x)
        name = op['name']
        kind = KINDS[name]

        def call(arg):
            return np.array(ctx.lib(fn, arg.copy()))
        clean = call(x)
        bad, hit = damage(np, x, op['damage'], 'real' if kind in ('code', 'recover') else kind, rng)
        if reach is None:
            try:
                fn(bad.copy())
            except Exception:
                ctx.probe('damaged-call-refused')
            ctx.fault('damage-' + name, len(hit))
        else:
            got = call(bad)
            ctx.check(got.shape == clean.shape, 'size-changed', '%s: %s results with damage, %s without' % (name, got.shape, clean.shape))
            free = np.ones(len(clean), bool)
            for i in hit:
                free[list(reach(i))] = False
            with np.errstate(all='ignore'):
                same = (got == clean) | (np.abs(got - clean) <= 1e-9 * np.abs(clean) + 1e-12) | ((got != got) & (clean != clean))
            ctx.check(same[free].all(), 'damage-spread', lambda: '%s: input positions %s damaged (%s), output %d of %d changed from %r to %r' % (
                name, hit[:6], [d[1] for d in op['damage']][:6], int(np.nonzero(free & ~same)[0][0]), len(clean),
                clean[np.nonzero(free & ~same)[0][0]].item(), got[np.nonzero(free & ~same)[0][0]].item()))
            ctx.fault('damage-' + name, len(hit))
            if hit and free.any():
                ctx.probe('contained')
                ctx.probe('contained-' + name)
            ctx.state(name, len(x), hit, op['v'], int(free.sum()))
        again = call(x)
        with np.errstate(all='ignore'):
            same = again.shape == clean.shape and bool(((again == clean) | (np.abs(again - clean) <= 1e-9 * np.abs(clean) + 1e-12) |
                                                        ((again != again) & (clean != clean))).all())
        ctx.check(same, 'damage-remains', lambda: '%s: the same undamaged input gives %s after a damaged one, %s before' % (name, again.tolist()[:12], clean.tolist()[:12]))
        ctx.probe('recovered')
        ctx.time('calls', 3)
