"""C16: modems: faults below half the minimum distance never corrupt a bit, over histories of constellation changes."""
from ..seams import SIM, AllocPolicy

SHRINK_LISTS = ('ops',)


def gen_const(r, n=None):
    n = n or r.choice([2, 2, 4, 4, 8, 16, 32])
    style = r.choice(['grid', 'random', 'real', 'int', 'offset', 'tiny', 'ring'])
    if style == 'grid':
        cells = r.sample([(a, b) for a in range(-4, 5) for b in range(-4, 5)], n)
        pts = [[float(a), float(b)] for a, b in cells]
    elif style in ('real', 'int'):
        pts = [[float(a), 0.0] for a in r.sample(range(-40, 40), n)]
    elif style == 'ring':
        import math
        pts = [[(1 + i % 2) * math.cos(6.28 * i / n), (1 + i % 2) * math.sin(6.28 * i / n)] for i in range(n)]
    else:
        pts = [[r.uniform(-3, 3), r.uniform(-3, 3)] for _ in range(n)]
        if style == 'offset':
            pts = [[a + 10, b - 7] for a, b in pts]
        if style == 'tiny':
            pts = [[a * 1e-4, b * 1e-4] for a, b in pts]
    return {'pts': pts, 'type': style if style in ('real', 'int') else 'complex', 'as': r.choice(['array', 'array', 'list', 'tuple'])}


def gen(r, tier, index):
    kind = r.choice(['psk', 'psk', 'qam', 'qam', 'custom', 'custom'])
    size = {'psk': r.choice([2, 4, 4, 8, 8, 16, 32, 64]), 'qam': r.choice([4, 4, 16, 16, 64, 256] if r.random() < 0.4 else [4, 16])}.get(kind, 0)
    ops = []
    for _ in range(r.choice([1, 2, 3, 4, 6, 8])):
        x = r.random()
        if x < 0.25:
            ops.append(['reject', r.choice([3, 5, 6, 7, 9, 12])])
        elif x < 0.42:
            ops.append(['replace', gen_const(r)])
        elif x < 0.5:
            ops.append(['build', r.choice(['qam', 'psk', 'custom']), r.choice([3, 6, 8, 10, 12])])
        else:
            ops.append([r.choice(['hard', 'hard', 'soft', 'soft', 'nearest']), r.randrange(1, 12), r.choice([0, 0.5, 0.9, 0.999]),
                        r.choice([1e-9, 1e-6, 1e-3, 0.05, 0.5, 2.0, 50.0]), r.choice([0, 0, 1, 2]), r.choice([3.0, 30.0, 1e3, 1e6]),
                        r.choice(['int64', 'int64', 'int8', 'uint8', 'bool'])])
    return {'kind': kind, 'size': size, 'const': gen_const(r), 'gray': r.random() < 0.5, 'ops': ops, 'seed': r.randrange(1 << 30),
            'poison': r.random() < 0.4}


def as_const(np, c):
    a = np.array([complex(*p) for p in c['pts']])
    if c['type'] == 'real':
        a = a.real.copy()
    elif c['type'] == 'int':
        a = a.real.astype(int)
    return a if c['as'] == 'array' else (a.tolist() if c['as'] == 'list' else tuple(a.tolist()))


def run(sc, ctx):
    import itertools
    import numpy as np
    from commpy.modulation import PSKModem, QAMModem, Modem
    if sc['poison']:
        SIM.alloc = AllocPolicy('junk', sc['seed'])
    rng = np.random.RandomState(sc['seed'] % (2 ** 32))
    if sc['kind'] == 'psk':
        modem = ctx.lib(PSKModem, sc['size'])
        expect = np.exp(2j * np.pi * np.arange(sc['size']) / sc['size'])
        ordered = False
    elif sc['kind'] == 'qam':
        modem = ctx.lib(QAMModem, sc['size'])
        k = int(round(sc['size'] ** 0.5))
        ax = np.arange(-k + 1, k, 2)
        expect = (ax[:, None] + 1j * ax[None, :]).reshape(-1)
        ordered = False
    else:
        expect = np.asarray(as_const(np, sc['const']))
        given = as_const(np, sc['const'])
        modem = ctx.lib(Modem, given, sc['gray'])
        ordered = not sc['gray']

    table = {}

    def learn(what):
        """The modem must be a consistent bijection between labels and the points of the constellation in force."""
        pts = np.asarray(modem.constellation)
        ctx.check(pts.shape == np.shape(expect), 'wrong-constellation', '%s: %s points instead of %s' % (what, pts.shape, np.shape(expect)))
        nb = int(np.log2(len(expect)))
        ctx.check(modem.m == len(expect) and modem.num_bits_symbol == nb, 'wrong-size', '%s: m=%r, %r bits per symbol for %d points' % (
            what, modem.m, modem.num_bits_symbol, len(expect)))
        es = float(np.mean(np.abs(np.asarray(expect, complex)) ** 2))
        ctx.check(abs(modem.Es - es) <= 1e-9 * es, 'wrong-energy', '%s: Es=%r for an average of %r' % (what, modem.Es, es))
        if ordered:
            ctx.check(np.array_equal(pts, expect), 'wrong-constellation', what)
        else:
            a, b = np.asarray(pts, complex), np.asarray(expect, complex)
            d = np.abs(a[:, None] - b[None, :])
            ctx.check((d.min(0) < 1e-9 * (1 + abs(b).max())).all() and len(set(d.argmin(1))) == len(b), 'wrong-constellation', what)
        table.clear()
        labels = list(itertools.product((0, 1), repeat=nb))
        out = np.asarray(ctx.lib(modem.modulate, np.array(labels).reshape(-1)))
        ctx.check(out.shape == (len(labels),), 'wrong-length', '%s symbols for %d labels' % (out.shape, len(labels)))
        d = np.abs(out.astype(complex)[:, None] - np.asarray(pts, complex)[None, :])
        ctx.check((d.min(1) == 0).all() and len(set(d.argmin(1))) == len(labels), 'labels-collide', '%s: labels do not map one to one' % what)
        for l, p in zip(labels, out):
            table[l] = complex(p)
        return nb

    nb = learn('construction')
    for op in sc['ops']:
        if op[0] == 'reject':
            try:
                modem.constellation = np.arange(op[1]) + 1j
            except ValueError:
                ctx.probe('rejected')
            else:
                ctx.check(False, 'accepted', 'a constellation of %d points was accepted' % op[1])
            ctx.fault('rejected-constellation')
            before = dict(table)
            nb = learn('after a rejected constellation')
            ctx.check(before == table, 'rejection-changed-modem', 'labels moved after a rejected constellation')
            continue
        if op[0] == 'build':
            if op[1] == 'qam' and op[2] not in (4, 16):
                try:
                    QAMModem(op[2])
                    ctx.check(False, 'accepted', 'QAM of %d points was accepted' % op[2])
                except ValueError:
                    ctx.probe('rejected')
            elif op[1] == 'psk' and op[2] not in (2, 4, 8):
                try:
                    PSKModem(op[2])
                    ctx.check(False, 'accepted', 'PSK of %d points was accepted' % op[2])
                except ValueError:
                    ctx.probe('rejected')
            elif op[1] == 'custom' and op[2] != 8:
                try:
                    Modem(np.arange(op[2]) + 0j, False)
                    ctx.check(False, 'accepted', 'a constellation of %d points was accepted' % op[2])
                except ValueError:
                    ctx.probe('rejected')
            else:
                ctx.lib(PSKModem, 8)
            before = dict(table)
            learn('after building another modem')
            ctx.check(before == table, 'modems-interact', 'labels moved after another modem was built')
            continue
        if op[0] == 'replace':
            new = as_const(np, op[1])
            expect = np.asarray(as_const(np, op[1]))
            ordered = True
            modem.constellation = new
            nb = learn('after replacing the constellation')
            ctx.probe('replaced')
            continue
        what, n, frac, nv, nimp, amp, dt = op
        pts = np.array(list(table.values()))
        labels = list(table)
        dist = np.abs(pts[:, None] - pts[None, :]) + np.where(np.eye(len(pts)), np.inf, 0)
        dmin = dist.min()
        bits = rng.randint(0, 2, n * nb)
        sym = np.array(ctx.lib(modem.modulate, bits.astype(dt)), dtype=complex)
        ctx.check(sym.shape == (n,), 'wrong-length', '%s symbols for %d bits' % (sym.shape, n * nb))
        for i in range(n):
            ctx.check(sym[i] == table[tuple(int(b) for b in bits[i * nb:(i + 1) * nb])], 'wrong-symbol', 'symbol %d of %d' % (i, n))
        # displacement of each symbol: towards the nearest neighbour or in a random direction
        near = pts[dist[[labels.index(tuple(int(b) for b in bits[i * nb:(i + 1) * nb])) for i in range(n)]].argmin(1)]
        direction = np.where(rng.random_sample(n) < 0.5, (near - sym) / np.abs(near - sym), np.exp(2j * np.pi * rng.random_sample(n)))
        y = sym + frac * dmin / 2 * direction
        if frac:
            ctx.fault('displaced-symbol', n)
        if what == 'hard':
            got = np.asarray(ctx.lib(modem.demodulate, y, 'hard'))
            ctx.check(got.shape == (n * nb,), 'wrong-length', '%s bits for %d symbols' % (got.shape, n))
            ctx.check((got == bits).all(), 'corrupted-bit', lambda: 'bit %d of %d wrong although no symbol moved more than %g of half the minimum distance' % (
                int(np.argmax(got != bits)), n * nb, frac))
            ctx.probe('within-half-distance')
        scale = np.abs(pts).max()
        for _ in range(nimp):
            i = rng.randint(n)
            y[i] = y[i] + amp * scale * np.exp(2j * np.pi * rng.random_sample())
            ctx.fault('impulse')
        if what in ('hard', 'nearest'):
            if what == 'nearest':
                y = y + scale * (rng.standard_normal(n) + 1j * rng.standard_normal(n)) * 0.5
            got = np.asarray(ctx.lib(modem.demodulate, y, 'hard'))
            ctx.check(got.shape == (n * nb,) and set(np.unique(got)) <= {0, 1}, 'not-bits', '%s bits for %d symbols' % (got.shape, n))
            for i in range(n):
                p = table[tuple(int(b) for b in got[i * nb:(i + 1) * nb])]
                best = np.abs(y[i] - pts).min()
                ctx.check(abs(y[i] - p) <= best * (1 + 1e-9) + 1e-12 * scale, 'not-nearest', 'symbol %d decided at distance %g, nearest point at %g' % (
                    i, abs(y[i] - p), best))
            ctx.probe('nearest')
        else:
            nvs = nv * float(np.mean(np.abs(pts) ** 2))
            llr = np.asarray(ctx.lib(modem.demodulate, y, 'soft', nvs))
            ctx.check(llr.shape == (n * nb,), 'wrong-length', '%s LLRs for %d symbols' % (llr.shape, n))
            ctx.check(np.isfinite(llr).all(), 'llr-not-finite', lambda: 'LLR %r for symbol %r, noise variance %g' % (
                float(llr[~np.isfinite(llr)][0]), complex(y[int(np.argmax(~np.isfinite(llr))) // nb]), nvs))
            for i in range(n):
                met = -np.abs(y[i] - pts) ** 2 / nvs
                for b in range(nb):
                    one = np.array([l[b] == 1 for l in labels])
                    want = np.logaddexp.reduce(met[one]) - np.logaddexp.reduce(met[~one])
                    g = llr[i * nb + b]
                    ctx.check(abs(g - want) <= 1e-7 * abs(want) + 1e-7 + 1e-11 * np.abs(met).max(), 'wrong-llr', lambda: 'bit %d of symbol %d: %r, exact %r' % (
                        b, i, float(g), float(want)))
            ctx.probe('soft')
            if nvs < 1e-2 * dmin ** 2 * (1 - frac) ** 2 / 4 and not nimp and frac < 0.95:
                ctx.check(((llr > 0) == (bits == 1)).all(), 'wrong-sign', 'soft output contradicts the sent bit at a low noise variance')
                ctx.probe('low-noise-sign')
        ctx.time('symbols', n)
        ctx.state(sc['kind'], len(pts), what, n, frac, nv, nimp, bits.tolist())
