"""C36: burst radio links find the burst, remove the oscillator offset and stay in step, with every symbol where its pulse puts it."""
import cmath
import math

SHRINK_LISTS = ('impulses', 'restarts', 'jumps', 'echoes')
SHRINK_INTS = (('nsym', 1), ('delay', 0))
BUDGET = 20000000
LENGTHS = [3, 5, 7, 8, 11, 12, 13, 16, 25, 31, 32, 61, 63, 64, 127, 139]


def gen(r, tier, index):
    zl = r.choice(LENGTHS)
    u = r.choice([x for x in range(1, zl) if math.gcd(x, zl) == 1])
    u2 = r.choice([x for x in range(1, zl) if math.gcd(x, zl) == 1])
    echoes = []
    delay = r.randrange(zl)
    left = zl - 1 - delay
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        if left:
            echoes.append([r.randrange(1, left + 1), r.choice([0.1, 0.5, 1.0]), r.random()])
    sps = r.choice([1, 2, 3, 4, 5, 8, 10, 15])
    rate = r.choice([1.0, 1.0, 1e3, 1200.0, 24e3, 270833.0, 1e6, 3.84e6, 0.1, 3.0])
    order = r.randrange(2, 13)
    mask = [r.randrange(2) for _ in range(order)]
    mask[-1] = 1
    seed = [r.randrange(2) for _ in range(order)]
    if not any(seed):
        seed[r.randrange(order)] = 1
    pulse = r.choice(['rc', 'rc', 'rrc', 'rrc', 'gauss', 'rect'])
    return {'zl': zl, 'u': u, 'q': r.choice([0, 0, r.randrange(zl), 1 - zl]), 'u2': u2, 'foreign': r.choice([0, 0, 0, 0.3, 1.0]), 'delay': delay,
            'echoes': echoes, 'offset': r.choice([0, r.uniform(-0.45, 0.45), r.uniform(-0.45, 0.45)]),
            'jumps': [[r.random(), r.uniform(-3, 3)] for _ in range(r.choice([0, 0, 1, 2]))], 'noise': r.choice([0, 0, 0.01, 0.1, 0.5]),
            'impulses': [[r.random(), r.choice([0.3, 3.0, 100.0])] for _ in range(r.choice([0, 0, 1, 3]))],
            'modem': r.choice([['psk', 2], ['psk', 4], ['psk', 8], ['qam', 4], ['qam', 16]]), 'nsym': r.randrange(1, 25) if r.random() < 0.95 else r.randrange(100, 400),
            'sps': sps, 'rate': rate, 'alpha': r.choice([0.1, 0.2, 0.22, 0.25, 0.3, 0.35, 0.4, 0.5, 0.6, 0.75, 0.8, 1.0, 0, r.uniform(0.05, 1)])
            if pulse != 'gauss' else r.choice([0.3, 1.0, 2.0]) / rate, 'pulse': pulse,
            'span': r.choice([2, 4, 6, 8, 12]), 'odd': r.random() < 0.15, 'order': order, 'mask': mask, 'seed': seed, 'form': r.choice(['str', 'list', 'tuple', 'array', 'iter']),
            'restarts': sorted(r.random() for _ in range(r.choice([0, 1, 1, 3]))), 'dtype': r.choice(['complex', 'complex', 'float', 'int']),
            'rs': r.randrange(1 << 30)}


# ------------------------------------------------------------------------------------------------ closed forms
def smooth(f, x, d):
    """f, or its limit where the formula is singular."""
    return f(x) if abs(d) > 1e-4 else (4 * (f(x + 2e-3) + f(x - 2e-3)) - (f(x + 4e-3) + f(x - 4e-3))) / 6


def rc(x, a):
    if x == 0:
        return 1.0
    x = abs(x)
    return smooth(lambda x: math.sin(math.pi * x) / (math.pi * x) * math.cos(math.pi * a * x) / (1 - (2 * a * x) ** 2), x, 1 - 2 * a * x)


def rrc(x, a):
    if x == 0:
        return 1 - a + 4 * a / math.pi
    x = abs(x)
    return smooth(lambda x: (math.sin(math.pi * x * (1 - a)) + 4 * a * x * math.cos(math.pi * x * (1 + a))) /
                  (math.pi * x * (1 - (4 * a * x) ** 2)), x, 1 - 4 * a * x)


def zc(u, n, q):
    """Every phase reduced in integers."""
    out = []
    for i in range(n):
        out.append(cmath.exp(-1j * math.pi * ((u * i * (i + n % 2 + 2 * q)) % (2 * n)) / n))
    return out


def lfsr(seed, mask, n):
    sr = list(seed)
    out = []
    for _ in range(n):
        out.append(sr[-1])
        sr = [sum(a & b for a, b in zip(sr, mask)) % 2] + sr[:-1]
    return out


def as_form(np, bits, form):
    if form == 'str':
        return ''.join(map(str, bits))
    if form == 'array':
        return np.array(bits)
    return tuple(bits) if form == 'tuple' else list(bits)


def rotate(np, x, pieces, fs, lib=None):
    """The signal behind an oscillator whose frequency changes between the pieces [(start, end, offset in Hz)]."""
    out = np.zeros(len(x), complex)
    for a, b, f in pieces:
        if lib is not None:
            out[a:b] = lib(x[a:b], f)
        else:
            turns = np.array([math.fmod(f / fs * i, 1.0) for i in range(b - a)])
            out[a:b] = x[a:b] * np.exp(2j * np.pi * turns)
    return out


def run(sc, ctx):
    import numpy as np
    from commpy import filters, impairments, modulation, sequences, utilities
    r = np.random.RandomState(sc['rs'])
    fs = sc['rate'] * sc['sps']

    def pn(seed, n):
        return np.asarray(ctx.lib(sequences.pnsequence, sc['order'], as_form(np, seed, sc['form']), as_form(np, sc['mask'], sc['form']), n))

    def shift(x, f):
        x = np.asarray(x)
        keep = x.copy()
        y = np.asarray(ctx.lib(impairments.add_frequency_offset, x, fs, f))
        ctx.check(y.shape == x.shape and (x == keep).all(), 'offset-damages', 'frequency offset on %s samples gave %s' % (x.shape, y.shape))
        return y

    # ---------------------------------------------------------------- scrambled payload; the receiver restarts from its saved register
    kind, m = sc['modem']
    modem = modulation.PSKModem(m) if kind == 'psk' else modulation.QAMModem(m)
    nbits = sc['nsym'] * modem.num_bits_symbol
    total = nbits + sc['order']
    ref = lfsr(sc['seed'], sc['mask'], total)
    tx = pn(sc['seed'], total)
    ctx.check(tx.tolist() == ref, 'wrong-pn-sequence', lambda: 'register %s, mask %s: %s, expected %s' % (sc['seed'], sc['mask'], tx.tolist()[:40], ref[:40]))
    got, pos = [], 0
    for cut in sorted(sc['restarts']) + [1.0]:
        end = max(pos, sc['order'], int(cut * total)) if cut < 1 else total
        if end > total:
            break
        state = sc['seed'] if pos == 0 else got[pos - sc['order']:pos]
        if pos:                                               # the register that follows the last outputs
            nxt = lfsr(list(reversed(state)), sc['mask'], sc['order'] + 1)
            assert nxt[:sc['order']] == state
            piece = pn(list(reversed(state)), sc['order'] + end - pos)[sc['order']:]
            ctx.fault('receiver-restart')
            ctx.probe('restarted')
        else:
            piece = pn(state, end)
        got += piece.tolist()
        pos = end
    ctx.check(got == ref, 'out-of-step', 'after restarts at %s the descrambler is out of step from bit %s on' % (
        sc['restarts'], next((i for i, (a, b) in enumerate(zip(got, ref)) if a != b), len(got))))
    msg = r.randint(0, 2, nbits)
    sent = (msg ^ np.array(ref[:nbits]))
    symbs = np.asarray(ctx.lib(modem.modulate, sent))

    # ---------------------------------------------------------------- synchronisation: the preamble behind delay, echoes and an oscillator offset
    zl = sc['zl']
    z = np.array(zc(sc['u'], zl, sc['q']))
    local = np.asarray(ctx.lib(sequences.zcsequence, sc['u'], zl, sc['q']))
    ctx.check(local.shape == (zl,), 'wrong-preamble', 'preamble of %s samples' % (local.shape,))
    ctx.check(np.abs(local - z).max() <= 1e-9, 'wrong-preamble', lambda: 'ZC(%d,%d,%d) is off by %.3g' % (sc['u'], zl, sc['q'], np.abs(local - z).max()))
    lag = zl - 1                                              # the receiver opens its window when the latest echo has arrived
    h = np.zeros(zl, complex)
    h[sc['delay']] = 1
    for d, amp, ph in sc['echoes']:
        h[sc['delay'] + d] += amp * cmath.exp(2j * math.pi * ph)
    ctx.fault('propagation-delay', int(sc['delay'] > 0))
    ctx.fault('echo', len(sc['echoes']))
    burst = np.concatenate((np.roll(local, lag)[:lag] if lag else local[:0], local, local))
    rx = np.convolve(burst, h)[:len(burst)]
    f0 = sc['offset'] * fs / zl
    if f0:
        ctx.fault('oscillator-offset')
    over = shift(rx, f0)
    ctx.check(np.abs(over - rotate(np, rx, [(0, len(rx), f0)], fs)).max() <= 1e-9 * (1 + np.abs(rx).max()), 'wrong-rotation',
              'a frequency offset of %g Hz at %g samples/s turns the burst wrongly' % (f0, fs))
    w = over[lag:]
    est = np.angle((w[:zl].conj() * w[zl:]).sum()) / (2 * np.pi * zl) * fs
    if (np.abs(w) ** 2).sum() > 1e-3:
        ctx.check(abs(est - f0) <= 1e-7 * fs / zl, 'offset-not-found', 'oscillator offset %.9g Hz measured as %.9g Hz' % (f0, est))
    back = shift(over, -f0)[lag:]
    dist = np.zeros(2 * zl, complex)
    if sc['noise']:
        dist = dist + sc['noise'] * (r.standard_normal(2 * zl) + 1j * r.standard_normal(2 * zl))
        ctx.fault('noise')
    if sc['foreign']:
        dist = dist + sc['foreign'] * np.tile(np.roll(zc(sc['u2'], zl, 0), r.randint(zl)), 2)
        ctx.fault('foreign-burst')
    for p, amp in sc['impulses']:
        dist[int(p * zl)] += amp
        ctx.fault('impulse')
    c = np.array([(np.roll(local, k).conj() * (back + dist)[:zl]).sum() for k in range(zl)]) / zl
    # content of the window: sample i holds sum_e h[e] * z[i - e]
    want = h + np.array([(np.roll(z, k).conj() * dist[:zl]).sum() for k in range(zl)]) / zl
    scale = 1 + np.abs(h).sum() + np.abs(dist).max()
    ctx.check(np.abs(c - want).max() <= 1e-8 * scale, 'wrong-channel-estimate', lambda: 'lag %d of %d estimated as %s, the channel has %s' % (
        np.abs(c - want).argmax(), zl, c[np.abs(c - want).argmax()], want[np.abs(c - want).argmax()]))
    power = np.sort(np.abs(want))
    if power[-1] - power[-2] > 1e-6 * scale:
        ctx.check(int(np.abs(c).argmax()) == int(np.abs(want).argmax()), 'wrong-delay', 'burst found at another delay')
        if int(np.abs(want).argmax()) == sc['delay']:
            ctx.probe('burst-found')
            if np.abs(dist).max() > 0:
                ctx.probe('burst-found-despite-faults')

    # ---------------------------------------------------------------- payload: pulses, oscillator jumps, sampling
    sps, nsym = sc['sps'], sc['nsym']
    nt = sc['span'] * sps + (sc['span'] * sps) % 2 + sc['odd']
    ts = 1 / sc['rate']
    p = sc['pulse']
    if p == 'rect':
        nt = sps
        tix, g = ctx.lib(filters.rectfilter, nt, ts, fs)
    else:
        tix, g = ctx.lib({'rc': filters.rcosfilter, 'rrc': filters.rrcosfilter, 'gauss': filters.gaussianfilter}[p], nt, sc['alpha'], ts, fs)
    tix, g = np.asarray(tix), np.asarray(g)
    ctx.check(tix.shape == (nt,) and g.shape == (nt,), 'wrong-pulse-length', '%s taps, %s times for %d samples' % (g.shape, tix.shape, nt))
    x = [(i - nt / 2) / sps for i in range(nt)]               # in symbol periods
    ctx.check(np.abs(tix * sc['rate'] - x).max() <= 1e-9 * (1 + nt), 'wrong-pulse-times', 'times %s' % tix[:5])
    a = sc['alpha']
    ideal = np.array([1.0 if p == 'rect' else rc(t, a) if p == 'rc' else rrc(t, a) if p == 'rrc' else
                      math.sqrt(math.pi) / a * math.exp(-(math.pi * t * ts / a) ** 2) for t in x])
    peak = np.abs(ideal).max()
    bad = ~(np.abs(g - ideal) <= 1e-6 * peak)
    ctx.check(not bad.any(), 'wrong-pulse', lambda: '%s pulse, roll-off %g, %g symbols/s, %g samples/s: tap %d is %r, the pulse is %r there' % (
        p, a, sc['rate'], fs, bad.argmax(), float(g[bad.argmax()]), float(ideal[bad.argmax()])))
    up = np.asarray(ctx.lib(utilities.upsample, symbs, sps))
    ctx.check(up.shape == (nsym * sps,) and (up[::sps] == symbs).all() and np.count_nonzero(up) <= np.count_nonzero(symbs), 'wrong-upsampling',
              'upsampling by %d' % sps)
    wave = np.convolve(up, g)
    cuts = sorted(int(q * len(wave)) for q, _ in sc['jumps'])
    edges = [0] + cuts + [len(wave)]
    offs = [sc['offset']] + [o for _, o in sc['jumps']]
    pieces = [(edges[i], edges[i + 1], offs[i] * fs / 16) for i in range(len(edges) - 1)]
    ctx.fault('oscillator-jump', len(cuts))
    src = wave if sc['dtype'] == 'complex' else np.rint(wave.real * 8).astype(int) if sc['dtype'] == 'int' else wave.real.copy()
    air = rotate(np, src, pieces, fs, shift)
    exact = rotate(np, src, pieces, fs)
    top = 1 + np.abs(src).max()
    ctx.check(np.abs(air - exact).max() <= 1e-9 * top, 'wrong-rotation', 'oscillator at %s' % (pieces,))
    ctx.check(abs((np.abs(air) ** 2).sum() - (np.abs(src.astype(complex)) ** 2).sum()) <= 1e-9 * len(src) * top ** 2, 'power-changed', 'oscillator at %s' % (pieces,))
    if sc['dtype'] != 'complex':
        air = rotate(np, wave, pieces, fs, shift)
    base = rotate(np, air, [(s, e, -f) for s, e, f in pieces], fs, shift)
    ctx.check(np.abs(base - wave).max() <= 1e-9 * top, 'not-restored', 'removing the oscillator offset does not restore the signal')
    if p == 'rrc':
        z0, ipulse = np.convolve(base, g), np.convolve(ideal, ideal)
    elif p == 'rect':
        z0, ipulse = np.convolve(base, g) / sps, np.convolve(ideal, ideal) / sps
    else:
        z0, ipulse = base, ideal
    first = int(np.abs(ipulse).argmax()) if p != 'rect' else sps - 1
    gain = ipulse[first]
    inst = z0[first:first + nsym * sps:sps] / gain
    iwave = np.convolve(up, ipulse)[first:first + nsym * sps:sps] / gain
    ctx.check(inst.shape == (nsym,) and np.abs(inst - iwave).max() <= 1e-5 * (1 + np.abs(iwave).max()), 'wrong-samples', 'symbol samples are off by %.3g' % (
        np.abs(inst - iwave).max() if inst.shape == iwave.shape else -1))
    if p == 'rc' and not sc['odd']:
        ctx.check(np.abs(inst - symbs).max() <= 1e-6 * (1 + np.abs(symbs).max()), 'interference', 'raised-cosine pulses: symbols interfere by %.3g' % np.abs(inst - symbs).max())
    spread = sc['noise'] * 0.3
    faulty = iwave + spread * (r.standard_normal(nsym) + 1j * r.standard_normal(nsym))
    const = np.asarray(modem.constellation)
    d = np.sort(np.abs(faulty[:, None] - const[None]), 1)
    clear = d[:, 1] - d[:, 0] > 1e-4
    bits = np.asarray(ctx.lib(modem.demodulate, inst + (faulty - iwave), 'hard')).astype(int).reshape(nsym, -1)
    near = np.abs(faulty[:, None] - const[None]).argmin(1) == np.abs(symbs[:, None] - const[None]).argmin(1)
    plain = bits ^ np.array(got[:nbits]).reshape(nsym, -1)
    ok = clear & near
    ctx.check((plain[ok] == msg.reshape(nsym, -1)[ok]).all(), 'wrong-bits', lambda: 'symbols %s lie next to the sent points and give other bits' % (
        np.nonzero((plain != msg.reshape(nsym, -1)).any(1) & ok)[0][:5]))
    if ok.all():
        ctx.probe('payload-delivered')
        ctx.probe('pulse-' + p)
    ctx.time('samples', len(burst) + len(wave))
    ctx.state(zl, sc['u'], sc['delay'], p, sps, sc['span'], nsym, len(sc['restarts']), len(cuts))
