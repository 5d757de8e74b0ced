"""C34: every call ends within the work its size allows, whatever the channel or its partners do."""
import random

from .. import convsim as V
from .. import ldpcsim as L
from ..seams import SIM, AllocPolicy, NoProgress, Tracer
from .c14 import gen_sys
from .c32 import SOFT, KINDS, Objects, build, damage

SHRINK_LISTS = ('ops', 'ops.0.damage')
SHRINK_INTS = (('ops.0.n', 1),)
TIMEOUT = 90.0
# operations whose amount of work is a function of the size of their input alone
FIXED = [k for k in KINDS if k not in ('bp', 'link', 'detect')]
SEARCH = ['bp', 'bp', 'best-first', 'best-first', 'best-first', 'kbest', 'ml', 'max-log', 'link', 'link', 'link', 'idd', 'turbo-long']


MOST = 300000                                                # no operation of the sizes used here needs half of this


def gen(r, tier, index):
    ops = []
    for _ in range(r.choice([1, 2, 3, 4])):
        name = r.choice(SEARCH) if r.random() < 0.7 else r.choice(FIXED)
        ops.append({'name': name, 'n': r.choice([1, 2, 3, 5, r.randrange(2, 14), r.randrange(4, 30)]), 'seed': r.randrange(1 << 30), 'v': r.randrange(1 << 16),
                    'damage': [[r.randrange(1000), r.choice(SOFT)] for _ in range(r.choice([0, 1, 1, 2, 4, 9]))],
                    'all': r.choice([None, None, None, 'nan', 'inf', 'zero', 'huge']), 'fail': r.choice([None, None, r.randrange(1, 12)])})
    while True:
        c = V.gen_code(r, max_states=8, ks=(1, 1, 2))
        if V.Code(c).proper():
            break
    return {'ops': ops, 'conv': c, 'rsc': gen_sys(r), 'ldpc': L.gen_matrix(r, square_inv=True), 'modem': r.choice(['psk2', 'psk4', 'psk8', 'qam4', 'qam16']),
            'poison': r.random() < 0.4, 'seed': r.randrange(1 << 30)}


def lines(fn, budget):
    """Lines of the library executed by fn() -> (count, outcome); stops it when the budget is used up."""
    with Tracer(budget=budget) as t:
        try:
            fn()
            how = 'returned'
        except NoProgress:
            how = 'endless'
        except Exception as e:
            how = 'failed with %s' % type(e).__name__
    return t.n, how


def hurt(np, x, op, kind, rng):
    y, hit = damage(np, x, op['damage'], kind, rng)
    if op['all'] and kind in ('real', 'complex', 'code') and y.dtype.kind in 'fc':
        y[...] = {'nan': np.nan, 'inf': np.inf, 'zero': 0.0, 'huge': 1e200}[op['all']]
        hit = list(range(len(y)))
    return y, hit


def run(sc, ctx):
    import numpy as np
    from commpy import channels, links, modulation as M
    from commpy.channelcoding import ldpc, turbo, interleavers
    if sc['poison']:
        SIM.alloc = AllocPolicy('junk', sc['seed'])
    np.seterr(all='ignore')
    o = Objects(np, sc, ctx)
    bps, m, const = o.modem.num_bits_symbol, o.modem.m, o.modem.constellation
    hard = lambda s: o.modem.demodulate(s, 'hard')
    for op in sc['ops']:
        rng = np.random.RandomState(op['seed'] % (2 ** 32))
        name, n, v = op['name'], op['n'], op['v']
        cplx = lambda *s: rng.standard_normal(s) + 1j * rng.standard_normal(s)
        if name in FIXED:
            fn, x, reach = build(np, o, op, rng)
            x = np.asarray(x)
            kind = KINDS[name]
            clean = lines(lambda: fn(x.copy()), MOST)
            ctx.check(clean[1] == 'returned', 'no-progress', '%s: %s on clean input after %d lines' % (name, clean[1], clean[0]))
            bad, hit = hurt(np, x, op, 'real' if kind in ('code', 'recover') else kind, rng)
            limit, got = 4 * clean[0] + 3000, lines(lambda: fn(bad.copy()), 4 * clean[0] + 3000)
        elif name == 'bp':
            nb, its, alg = 1 + n % 3, [1, 2, 5, 20, 100, 400][v % 6], ['SPA', 'MSA'][v // 8 % 2]
            ldpc.build_matrix(o.par)                                         # once per code
            one, edges = 0, sum(len(a) for a in sc['ldpc']['rows'])
            for _ in range(6):
                x = rng.standard_normal(o.nv)
                got = lines(lambda: ldpc.ldpc_bp_decode(x, o.par, alg, 1), 40 * edges + 3000)
                ctx.check(got[1] == 'returned', 'no-progress', 'one iteration of belief propagation: %s after %d lines' % (got[1], got[0]))
                one = max(one, got[0])
            x = 2 * rng.standard_normal(nb * o.nv)
            bad, hit = hurt(np, x, op, 'real', rng)
            # with MSA, one iteration costs the same whatever the values are
            limit = nb * its * (one + 20 * edges + 200) + 3000
            if limit > 600000:
                its = 5
                limit = nb * its * (one + 20 * edges + 200) + 3000
            got = lines(lambda: ldpc.ldpc_bp_decode(bad.copy(), o.par, alg, its), limit)
        elif name in ('best-first', 'kbest', 'ml', 'max-log'):
            nt = 2 + v % 3
            while m ** nt > 300 and nt > 2:
                nt -= 1
            h = cplx(nt, nt)
            if v % 7 == 0:
                h[:, 0] = h[:, -1]                                          # singular channel
            if v % 11 == 0:
                h[...] = 0
            x = h.dot(const[rng.randint(0, m, nt)]) + 0.3 * cplx(nt)
            bad, hit = hurt(np, np.concatenate((x, h.reshape(-1))) if v % 2 else x, op, 'complex', rng)
            y, hh = bad[:nt], bad[nt:].reshape(nt, nt) if v % 2 else h
            nodes = sum(m ** i for i in range(nt + 1))
            calls = [0]

            def demode(s):
                calls[0] += 1
                if op['fail'] == calls[0]:
                    raise RuntimeError('simulated failure')
                return hard(s)
            if name == 'best-first':
                sizes = tuple(rng.choice([1, 2, m, m ** nt]) for _ in range(nt - 1))
                # every node is taken from a stack, expanded and demodulated at most once
                limit = nodes * (400 + 40 * m + 40 * nt) + 5000
                fn = lambda: M.best_first_detector(y, hh, const, sizes, 0.5, demode, [1.0, 30.0, 1e4][v % 3])
            elif name == 'kbest':
                K = 1 + v // 3 % 16
                limit = nt * 200 + K * m * 30 * nt + 40 * m ** nt * 0 + 20000
                fn = lambda: M.kbest(y, hh, const, K, 0.5, ['hard', 'soft'][v // 5 % 2], demode)
            elif name == 'ml':
                limit = 300 * nt + 20 * m ** nt + 5000
                fn = lambda: M.mimo_ml(y, hh, const)
            else:
                pts = const[rng.randint(0, m, (nt, n))]
                limit = 400 * bps * nt + 60 * n * nt * bps + 5000
                fn = lambda: M.max_log_approx(y, hh, 0.5, pts, demode)
            got = lines(fn, limit)
            if op['fail'] and calls[0] >= op['fail']:
                ctx.fault('callback-failure')
        elif name in ('link', 'idd'):
            # a partner that always, never or sometimes errs, loses its output, or fails
            frame, budget, target = bps * (1 + n % 6), bps * (1 + n % 6) * (1 + v % 8), [0, 1, 3, 1000000][v // 8 % 4]
            mode = ['perfect', 'wrong', 'some', 'nan'][v // 32 % 4]
            api = ['performance', 'full'][v // 128 % 2]
            state = {'n': 0}

            def decoder(bits):
                state['n'] += 1
                if op['fail'] == state['n']:
                    raise RuntimeError('simulated failure')
                bits = np.array(bits)
                if mode == 'wrong' or (mode == 'some' and state['n'] % 3 == 0):
                    bits[:] = rng.randint(0, 2, len(bits))
                return bits

            def receive(y, h, c, nv):
                if mode == 'nan':
                    y = y * np.nan
                return hard(y)
            nit = 1 + n % 4
            if name == 'idd':
                x = cplx(2 * (1 + n % 4), 2, 2)
                calls = [0]

                def part(*a):
                    calls[0] += 1
                    if op['fail'] == calls[0]:
                        raise RuntimeError('simulated failure')
                    return a[-1] * {'nan': np.nan, 'perfect': 1, 'wrong': -1, 'some': np.inf}[mode]
                dec = links.idd_decoder(part, part, lambda l: (l > 0).astype(int), nit)
                nb_vect = len(x)
                fn = lambda: dec(cplx(nb_vect, 2), x, const, 0.5, rng.standard_normal(nb_vect * 2 * bps), 2 * bps)
                limit = nit * (nb_vect + 1) * 60 + 500
                hit = [0] if mode != 'perfect' or op['fail'] else []
            else:
                ch = channels.SISOFlatChannel(None, (1 + 0j, 0))
                model = links.LinkModel(o.modem.modulate, ch, receive, bps, const, o.modem.Es, decoder)
                snrs = [3.0, 10.0, 300.0][:1 + v // 256 % 3]
                one = lines(lambda: ch.set_SNR_dB(10.) or receive(ch.propagate(o.modem.modulate(rng.randint(0, 2, frame))), 0, 0, 0), MOST)[0]
                sends = -(-budget // frame) + 1
                limit = len(snrs) * (sends * (3 * one + 500) + 500) + 2000
                if api == 'performance':
                    fn = lambda: model.link_performance(snrs, budget, target, frame)
                else:
                    fn = lambda: model.link_performance_full_metrics(snrs, -(-budget // frame), target, frame, stop_on_surpass_error=bool(v & 1024))
                hit = [0] if mode != 'perfect' or op['fail'] else []
            got = lines(fn, limit)
            if hit:
                ctx.fault('partner-' + mode)
        else:
            n = min(n, 12)
            it = [1, 2, 8, 25][v % 4]
            il = interleavers.RandInterlv(n, v)
            x = rng.standard_normal(3 * n)
            bad, hit = hurt(np, x, op, 'real', rng)
            one = lines(lambda: turbo.turbo_decode(x[:n], x[n:2 * n], x[2 * n:], o.rsc, 0.4, 1, il), MOST)[0]
            limit = 3 * it * one + 3000
            got = lines(lambda: turbo.turbo_decode(bad[:n], bad[n:2 * n], bad[2 * n:], o.rsc, [0.4, 1e-12, 1e12][v // 4 % 3], it, il), limit)
        ctx.check(got[1] != 'endless', 'no-progress', '%s of size %d did not end within %d lines of the library (%d inputs damaged: %s)' % (
            name, n, limit, len(hit), op['damage'][:4]))
        if name not in ('link', 'idd'):
            ctx.fault('damage-' + name, len(hit))
        ctx.probe('ended-' + name)
        ctx.probe('ended' if got[1] == 'returned' else 'refused')
        if hit:
            ctx.probe('ended-despite-faults')
        ctx.state(name, n, v % 4096, got[1], got[0] // 50)
        ctx.time('calls', 1)
        ctx.time('longest-call-in-percent-of-limit', 100 * got[0] // limit)
