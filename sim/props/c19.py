"""C19: binary channels and the simple AWGN channel under arbitrary random draws."""
import math

from .. import seams
from ..seams import SIM

SHRINK_LISTS = ('calls',)


def gen(r, tier, index):
    calls = []
    for _ in range(r.choice([1, 3, 6])):
        kind = r.choice(['bec', 'bsc', 'bec', 'bsc', 'awgn'])
        c = {'kind': kind, 'n': r.choice([0, 1, 2, 7, 50, 300]), 'seed': r.randrange(1 << 30),
             'dtype': r.choice(['int64', 'int8', 'int32'] + (['float64'] if kind == 'bec' else [])),
             'p': r.choice([0, 1, 0.0, 1.0, 0.5, 1e-300, 5e-324, 1 - 2.0 ** -53, r.random(), r.random()]),
             'fill': r.choice(['random', 'zeros', 'ones']), 'view': r.random() < 0.2}
        if kind == 'awgn':
            c['n'] = max(1, c['n'])
            c['snr'] = r.choice([-20.0, 0.0, 3, 10.0, 25.5, 60])
            c['rate'] = r.choice([1.0, 0.5, 1 / 3, 0.75])
            c['complex'] = r.random() < 0.5
            c['amp'] = r.choice([1.0, 0.1, 30.0])
        calls.append(c)
    return {'calls': calls, 'edge': r.choice([0.0, 0.05, 0.3, 1.0]), 'stat': r.random() < 0.3, 'alloc': r.random() < 0.5,
            'aseed': r.randrange(1 << 20)}


def run(sc, ctx):
    import numpy as np
    from commpy import channels
    if sc['alloc']:
        SIM.alloc = seams.AllocPolicy(seed=sc['aseed'])
    for c in sc['calls']:
        r = np.random.RandomState(c['seed'] % (1 << 32))
        np.random.seed((c['seed'] + 1) % (1 << 32))
        if c['kind'] == 'awgn':
            awgn(sc, c, ctx, np, channels, r)
            continue
        n = 20000 if sc['stat'] else c['n']
        bits = {'random': r.randint(0, 2, n), 'zeros': np.zeros(n, int), 'ones': np.ones(n, int)}[c['fill']].astype(c['dtype'])
        if c['view'] and n:
            bits = np.repeat(bits, 2)[::2]
        keep = bits.copy()
        edge = 0.0 if sc['stat'] and 0 < c['p'] < 1 else sc['edge']
        SIM.draws = seams.DrawPolicy(c['seed'], edge) if edge else None
        fn = channels.bec if c['kind'] == 'bec' else channels.bsc
        out = ctx.lib(fn, bits, c['p'])
        SIM.draws = None
        out = np.asarray(out)
        ctx.time('channel_uses', n)
        ctx.check((bits == keep).all(), 'input-altered', '%s altered its input' % c['kind'])
        ctx.check(out is not bits and not np.shares_memory(out, bits), 'output-aliases-input', c['kind'])
        ctx.check(out.shape == bits.shape, 'length', '%s: %s in, %s out' % (c['kind'], bits.shape, out.shape))
        changed = out != keep
        if c['kind'] == 'bec':
            ctx.check((out[changed] == -1).all(), 'bad-symbol', 'erasure channel produced %r' % set(out[changed].tolist()))
        else:
            ctx.check((out[changed] == 1 - keep[changed]).all(), 'bad-symbol', 'BSC produced %r' % set(out.tolist()))
        if c['p'] == 0:
            ctx.check(not changed.any(), 'altered-at-p0', '%s with probability 0 altered %d of %d positions' % (
                c['kind'], changed.sum(), n))
            ctx.probe('p0')
        elif c['p'] == 1:
            ctx.check(changed.all(), 'spared-at-p1', '%s with probability 1 spared %d of %d positions' % (
                c['kind'], n - changed.sum(), n))
            ctx.probe('p1')
        elif sc['stat']:
            rate_checks(ctx, np, c, keep, changed, n)
            again = np.asarray(ctx.lib(fn, bits, c['p'])) != keep
            if 0.01 < c['p'] < 0.99:
                ctx.check((again != changed).any(), 'not-redrawn', '%s hits the same %d positions on every use' % (c['kind'], changed.sum()))
                rate(ctx, (again & changed).sum(), n, c['p'] ** 2, 'successive uses')
            if 0.1 <= c['p'] <= 0.9:
                # the number of hits of a block is binomial: over 200 blocks its dispersion follows a chi-square law (beyond 1e-12)
                m, blocks = 100, 200
                hits = np.array([(np.asarray(ctx.lib(fn, keep[m * (i % 100):m * (i % 100 + 1)], c['p'])) !=
                                  keep[m * (i % 100):m * (i % 100 + 1)]).sum() for i in range(blocks)])
                spread = float(((hits - m * c['p']) ** 2).sum() / (m * c['p'] * (1 - c['p'])))
                ctx.check(70 <= spread <= 420, 'dispersion', '%s: hits of %d blocks of %d positions are spread by %.1f, expected about %d' % (
                    c['kind'], blocks, m, spread, blocks))
                ctx.probe('dispersion-tested')
            ctx.probe('rate-tested')
        if changed.any():
            ctx.fault('bit-' + c['kind'], int(changed.sum()))
        ctx.state(c['kind'], c['p'], n, int(changed.sum()), c['dtype'])


def rate(ctx, hits, n, p, what):
    if n == 0:
        return
    bound = math.sqrt(math.log(2 / 1e-12) / 2 * n)      # Hoeffding, 1e-12
    ctx.check(abs(hits - n * p) <= bound, 'rate', '%s: %d of %d positions hit, expected %.1f +- %.1f' % (what, hits, n, n * p, bound))


def rate_checks(ctx, np, c, keep, changed, n):
    rate(ctx, changed.sum(), n, c['p'], c['kind'])
    for b in (0, 1):
        rate(ctx, changed[keep == b].sum(), int((keep == b).sum()), c['p'], '%s on %d' % (c['kind'], b))
    # neighbours and parts are hit independently
    both = (changed[1:] & changed[:-1])
    rate(ctx, both[::2].sum(), len(both[::2]), c['p'] ** 2, 'neighbours')
    for part in np.array_split(changed, 4):
        rate(ctx, part.sum(), len(part), c['p'], 'quarter')
    for step in (2, 3, 4, 5, 8):
        for off in range(step):
            rate(ctx, changed[off::step].sum(), len(changed[off::step]), c['p'], 'stride')


def awgn(sc, c, ctx, np, channels, r):
    n = 20000 if sc['stat'] else c['n']
    x = r.standard_normal(n) * c['amp']
    if c['complex']:
        x = x + 1j * r.standard_normal(n) * c['amp']
    if not np.any(x):
        return
    keep = x.copy()
    seed = (c['seed'] + 7) % (1 << 32)

    def noise(sig, snr, rate):
        np.random.seed(seed)
        return np.asarray(ctx.lib(channels.awgn, sig, snr, rate)) - sig
    nz = noise(x, c['snr'], c['rate'])
    ctx.time('channel_uses', n)
    ctx.check((x == keep).all(), 'input-altered', 'awgn altered its input')
    ctx.check(nz.shape == x.shape and np.iscomplexobj(nz) == c['complex'], 'length', 'awgn output shape or type')
    energy = float((np.abs(x) ** 2).mean())
    want = energy / (c['rate'] * 10 ** (c['snr'] / 10.0))
    unit = nz / math.sqrt(want)
    # the same draws at another SNR, rate and amplitude scale exactly as the power does
    for snr2, rate2, amp2 in ((c['snr'] + 7.0, c['rate'], 1.0), (c['snr'], 0.9, 1.0), (c['snr'], c['rate'], 3.0)):
        n2 = noise(x * amp2, snr2, rate2)
        w2 = energy * amp2 ** 2 / (rate2 * 10 ** (snr2 / 10.0))
        lim = 1e-9 + 1e-12 * float(np.abs(x).max()) * (amp2 + 1) / math.sqrt(min(w2, want))
        ctx.check(np.allclose(n2 / math.sqrt(w2), unit, rtol=1e-6, atol=lim), 'noise-scaling', 'noise does not scale with SNR %s->%s, '
                  'rate %s->%s, amplitude x%s' % (c['snr'], snr2, c['rate'], rate2, amp2))
    if sc['stat']:
        p = float((np.abs(unit) ** 2).mean())
        tol = 9 * math.sqrt((1 if c['complex'] else 2) / n)
        ctx.check(abs(p - 1) <= tol, 'noise-power', 'noise power is %.4f of what SNR %s, rate %s ask for' % (p, c['snr'], c['rate']))
        ctx.check(abs(unit.mean()) <= 9 / math.sqrt(n), 'noise-mean', 'noise mean %r' % unit.mean())
        if c['complex']:
            ctx.check(abs((unit.real ** 2).mean() - 0.5) <= tol and abs((unit.real * unit.imag).mean()) <= 6 / math.sqrt(n),
                      'noise-circular', 'noise is not circular')
        ctx.check(abs((unit[1:] * unit[:-1].conj()).mean()) <= 9 / math.sqrt(n), 'noise-white', 'noise samples are correlated')
        ctx.probe('power-tested')
    ctx.fault('noise', n)
    ctx.state('awgn', c['snr'], c['rate'], c['complex'], n)
