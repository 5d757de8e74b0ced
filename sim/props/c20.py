"""C20: OFDM over channels with a delay spread within the cyclic prefix."""

SHRINK_INTS = (('nsym', 1), ('taps', 1), ('extra', 0))
SHRINK_LISTS = ('impulses',)


def gen(r, tier, index):
    nfft = r.choice([4, 8, 16, 16, 32, 64, 64, 128, 12, 20, 48, 100])
    nsc = 2 * r.randrange(1, (nfft - 1) // 2 + 1)
    if r.random() < 0.2:
        nsc = 2 * ((nfft - 1) // 2)
    cp = r.choice([0, 1, 2, nfft // 4, nfft // 2, nfft - 1, nfft])
    return {'nfft': nfft, 'nsc': nsc, 'cp': cp, 'nsym': r.choice([0, 1, 1, 2, 3, 5]), 'taps': r.randrange(1, cp + 2),
            'sparse': r.random() < 0.5, 'real': r.random() < 0.2, 'seed': r.randrange(1 << 30), 'ideal': r.random() < 0.2,
            'extra': r.choice([0, 0, 1, nfft - 1]), 'scale': r.choice([1.0, 1e-3, 1e4]),
            'impulses': [[r.random(), r.choice([1e-3, 1.0, 10.0])] for _ in range(r.choice([0, 0, 1, 3]))],
            'before': r.random() < 0.3, 'order': r.choice(['C', 'F'])}


def run(sc, ctx):
    import numpy as np
    from commpy.modulation import ofdm_tx, ofdm_rx
    r = np.random.RandomState(sc['seed'])
    nfft, nsc, cp, nsym = sc['nfft'], sc['nsc'], sc['cp'], sc['nsym']
    x = r.standard_normal((nsc, nsym)) * sc['scale']
    if not sc['real']:
        x = x + 1j * r.standard_normal((nsc, nsym)) * sc['scale']
    x = np.array(x, order=sc['order'])
    keep = x.copy()
    s = np.asarray(ctx.lib(ofdm_tx, x, nfft, nsc, cp))
    ctx.check((x == keep).all(), 'input-altered', 'ofdm_tx altered its input')
    ctx.check(s.shape == (nsym * (nfft + cp),), 'tx-length', '%s samples for %d symbols of %d+%d' % (s.shape, nsym, nfft, cp))
    h = np.zeros(cp + 1, complex)
    if sc['ideal'] or sc['taps'] < 1:
        h[0] = 1
    else:
        taps = range(min(sc['taps'], cp + 1))
        for t in taps:
            if not sc['sparse'] or t in (0, len(taps) - 1) or r.random_sample() < 0.3:
                h[t] = r.standard_normal() + 1j * r.standard_normal()
        ctx.fault('multipath-echo', int((np.abs(h[1:]) > 0).sum()))
    y = np.convolve(s, h)[:len(s)] if len(s) else s
    noise = np.zeros(len(s), complex)
    for frac, amp in sc['impulses']:
        if len(s):
            noise[int(frac * len(s))] += amp * sc['scale']
            ctx.fault('impulse')
    y = y + noise
    if sc['before'] and cp and len(s):
        # samples of an earlier transmission spill over the first prefix only
        spill = cp - (np.max(np.nonzero(h)[0]))
        y[:spill] += 5 * sc['scale']
        ctx.fault('foreign-samples', int(spill))
    y = np.concatenate((y, np.full(sc['extra'], 7.0 * sc['scale'] + 0j)))
    ykeep = y.copy()
    got = np.asarray(ctx.lib(ofdm_rx, y, nfft, nsc, cp))
    ctx.check((y == ykeep).all(), 'input-altered', 'ofdm_rx altered its input')
    if sc['extra'] >= nfft + cp:
        return
    ctx.check(got.shape == (nsc, nsym), 'rx-shape', '%s for %d carriers, %d symbols' % (got.shape, nsc, nsym))
    bins = list(range(nfft - nsc // 2, nfft)) + list(range(1, nsc // 2 + 1))
    k = np.array(bins)
    hf = np.array([(h * np.exp(-2j * np.pi * kk * np.arange(cp + 1) / nfft)).sum() for kk in k])
    want = x * hf[:, None]
    t = np.arange(nfft)
    for i in range(nsym):
        w = noise[i * (nfft + cp) + cp:(i + 1) * (nfft + cp)]
        if np.any(w):
            want[:, i] = want[:, i] + np.array([(w * np.exp(-2j * np.pi * kk * t / nfft)).sum() for kk in k])
    tol = 1e-9 * sc['scale'] * nfft * (1 + np.abs(h).sum())
    err = np.abs(got - want)
    ctx.check(nsym == 0 or err.max() <= tol, 'leakage', lambda: 'carrier %d of symbol %d is off by %.3g (prefix %d, %d taps)' % (
        np.unravel_index(err.argmax(), err.shape) + (float(err.max()), cp, sc['taps'])))
    ctx.time('ofdm_symbols', nsym)
    ctx.time('samples', len(s))
    if nsym:
        ctx.probe('ideal' if sc['ideal'] else 'multipath')
        if sc['taps'] == cp + 1 and cp:
            ctx.probe('delay-equals-prefix')
    ctx.state(nfft, nsc, cp, nsym, sc['taps'], sc['extra'])
