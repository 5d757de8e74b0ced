"""C17: MIMO detectors against exhaustive search, under channel faults."""
from ..seams import SIM, AllocPolicy

SHRINK_LISTS = ('faults',)
SHRINK_INTS = (('ntx', 1),)


def gen(r, tier, index):
    det = r.choice(['ml', 'ml', 'kbest', 'kbest', 'kbest', 'ksoft', 'ksoft', 'maxlog', 'best'])
    const = r.choice(['qam4', 'qam4', 'qam4', 'qam16', 'psk2', 'psk8', 'pam4', 'custom', 'c64'])
    m = {'qam4': 4, 'qam16': 16, 'psk2': 2, 'psk8': 8, 'pam4': 4, 'custom': 4, 'c64': 4}[const]
    top = 4 if m <= 4 else (3 if m == 8 else 2)
    ntx = r.randrange(1, top + 1)
    if det == 'best':
        ntx = max(2, ntx if m <= 8 else 2)
        if ntx == 4:
            ntx = 3
    if det in ('ml', 'kbest') and r.random() < 0.12:          # lattices of more than a thousand points
        ntx = {4: r.choice([5, 6]), 16: 3, 2: r.choice([10, 11, 12]), 8: 4, 64: 2}[m]
    nrx = ntx + r.choice([0, 0, 0, 1, 2])
    if det == 'ml' and r.random() < 0.3:
        nrx = r.randrange(1, nrx + 1)
    if det == 'best':
        nrx = ntx
    big = m ** ntx
    K = r.choice([1, 2, 3, m, m + 1, 16, max(1, m ** (ntx - 1)), max(1, m ** (ntx - 1)), big, 2 * big])
    faults = []
    for _ in range(r.choice([0, 1, 1, 2])):
        faults.append([r.choice(['impulse', 'fade-row', 'fade-column', 'aligned', 'swap', 'offset']), r.randrange(8), r.choice([1e-3, 0.05, 0.3, 3.0, 50.0])])
    return {'det': det, 'const': const, 'ntx': ntx, 'nrx': nrx, 'K': K, 'noise': r.choice([0, 0, 0.05, 0.3, 0.7, 1.5]), 'nv': r.choice([0.01, 0.3, 1.0, 5.0]),
            'real': r.random() < 0.15, 'faults': faults, 'seed': r.randrange(1 << 30), 'poison': r.random() < 0.5,
            'llr_max': r.choice([0.5, 3.0, 500.0, 1e6]), 'stack': r.choice(['large', 'large', 1, 3]), 'aslist': r.random() < 0.2,
            'vectors': r.choice([1, 1, 2, 3]), 'corner': r.choice(['', '', '', 'first', 'last', 'mixed'])}


def run(sc, ctx):
    import itertools
    import numpy as np
    from commpy import modulation as M
    if sc['poison']:
        SIM.alloc = AllocPolicy('junk', sc['seed'])
    rng = np.random.RandomState(sc['seed'] % (2 ** 32))
    c = sc['const']
    if c.startswith('qam'):
        modem = M.QAMModem(int(c[3:]))
    elif c.startswith('psk'):
        modem = M.PSKModem(int(c[3:]))
    elif c == 'pam4':
        modem = M.Modem(np.array([-3.0, -1.0, 3.0, 1.0]), False)
    elif c == 'c64':
        modem = M.Modem(np.array([-1 - 1j, -1 + 1j, 1 - 1j, 1 + 1j], dtype=np.complex64), False)
    else:
        modem = M.Modem(np.array([0.3 - 1j, -1.5, 0.7 + 0.2j, -0.1 + 1.4j]), False)
    const = np.array(modem.constellation)
    arg = list(const) if sc['aslist'] else const
    nb = modem.num_bits_symbol
    m = len(const)
    ntx, nrx, K = sc['ntx'], sc['nrx'], sc['K']
    used = 0
    finding = None
    for vec in range(sc['vectors']):
        H = rng.standard_normal((nrx, ntx))
        if not (sc['real'] and not np.iscomplexobj(const)):
            H = H + 1j * rng.standard_normal((nrx, ntx))
        idx = rng.randint(0, m, ntx)
        if sc['corner']:                                      # words at the ends of the enumeration order
            idx = {'first': idx * 0, 'last': idx * 0 + m - 1, 'mixed': rng.randint(0, 2, ntx) * (m - 1)}[sc['corner']]
        x = const[idx].astype(complex if np.iscomplexobj(const) else float)
        scale = np.abs(const).max()
        noise = sc['noise'] * scale * rng.standard_normal(nrx)
        if np.iscomplexobj(H) or np.iscomplexobj(x):
            noise = noise + 1j * sc['noise'] * scale * rng.standard_normal(nrx)
        noisy = sc['noise'] > 0
        for what, where, strength in sc['faults']:
            if what == 'impulse':
                noise[where % nrx] += 10 * strength * scale
                noisy = True
            elif what == 'offset':
                noise = noise + strength * scale
                noisy = True
            elif what == 'fade-row' and nrx > 1:
                H[where % nrx] *= strength
            elif what == 'fade-column' and ntx > 1:
                H[:, where % ntx] *= strength
            elif what == 'aligned' and ntx > 1:
                H[:, where % ntx] = H[:, (where + 1) % ntx] + min(strength, 1.0) * H[:, where % ntx]
            elif what == 'swap' and ntx > 1:
                H[:, [0, ntx - 1]] = H[:, [ntx - 1, 0]]
            ctx.fault('channel-' + what)
        if noisy:
            ctx.fault('noise')
        y = H.dot(x) + noise
        pts = np.array(list(itertools.product(range(m), repeat=ntx)))            # every lattice point, as indexes
        P = const[pts].T.astype(complex)
        met = (np.abs(y[:, None] - H.dot(P)) ** 2).sum(0)
        lo = met.min()
        tol = 1e-9 * (1 + (np.abs(y) ** 2).sum() + met.max())
        cond = np.linalg.cond(H)

        def metric_of(v, name):
            v = np.asarray(v).reshape(-1)
            ctx.check(v.shape == (ntx,), 'wrong-length', '%s returned %s symbols for %d antennas' % (name, v.shape, ntx))
            d = np.abs(v[:, None] - const[None, :])
            ctx.check((d.min(1) <= 1e-6 * scale).all(), 'not-a-lattice-point', '%s returned %s' % (name, v))
            return (np.abs(y - H.dot(const[d.argmin(1)].astype(complex))) ** 2).sum(), d.argmin(1)

        def bits_of(ind):
            return np.asarray(modem.demodulate(const[np.asarray(ind)].astype(complex), 'hard')).reshape(-1)

        def demode(s):
            return modem.demodulate(np.asarray(s), 'hard')

        def maxlog(cand, mets):
            B = np.array([bits_of(i) for i in cand]).reshape(len(cand), -1)
            out = []
            for k in range(ntx * nb):
                d0 = np.concatenate((mets[B[:, k] == 0], [np.inf])).min()
                d1 = np.concatenate((mets[B[:, k] == 1], [np.inf])).min()
                out.append((d0, d1))
            return np.array(out)

        def compare_llr(llr, d, what):
            llr = np.asarray(llr)
            ctx.check(llr.shape == (ntx * nb,), 'wrong-length', '%s: %s LLRs for %d bits' % (what, llr.shape, ntx * nb))
            with np.errstate(all='ignore'):
                want = (d[:, 1] - d[:, 0]) / (2 * sc['nv'])
            for k in range(len(want)):
                if np.isinf(want[k]):
                    ctx.check(llr[k] == want[k], 'wrong-llr', '%s: bit %d has LLR %r, only candidates of one value exist' % (what, k, float(llr[k])))
                else:
                    ctx.check(abs(llr[k] - want[k]) <= 10 * tol / (2 * sc['nv']), 'wrong-llr', '%s: LLR of bit %d is %r, max-log over the candidates gives %r' % (
                        what, k, float(llr[k]), float(want[k])))

        def kbest_ref():
            """Candidates a K-best search keeps; None where a near tie leaves the choice open."""
            q, r = np.linalg.qr(H)
            yt = q.conj().T.dot(y)
            cand = [((), 0.0)]
            clear = True
            for lev in range(ntx - 1, -1, -1):
                new = []
                for tail, d in cand:
                    base = yt[lev] - sum(r[lev, lev + 1 + i] * const[t] for i, t in enumerate(tail))
                    for s in range(m):
                        new.append(((s,) + tail, d + abs(base - r[lev, lev] * const[s]) ** 2))
                new.sort(key=lambda t: t[1])
                if len(new) > K and new[K][1] - new[K - 1][1] <= tol:
                    clear = False
                cand = new[:K]
            return cand, clear

        det = sc['det']
        if det == 'ml':
            got, _ = metric_of(ctx.lib(M.mimo_ml, y, H, arg), 'mimo_ml')
            ctx.check(got <= lo + tol, 'not-closest', 'mimo_ml chose a point at squared distance %r, the closest is at %r' % (float(got), float(lo)))
            ctx.probe('ml')
        elif det == 'kbest':
            if nrx < ntx:
                continue
            got, ind = metric_of(ctx.lib(M.kbest, y, H, arg, K), 'kbest')
            if K >= m ** (ntx - 1):
                ctx.check(got <= lo + tol, 'not-closest', 'K=%d: chose a point at squared distance %r, the closest is at %r' % (K, float(got), float(lo)))
                ctx.probe('kbest-exhaustive')
            if not noisy and cond < 1e4:
                ctx.check((ind == idx).all(), 'noiseless-error', 'K=%d: %s instead of the sent %s without noise' % (K, ind, idx))
                ctx.probe('kbest-noiseless')
            cand, clear = kbest_ref()
            if clear and cond < 1e6:
                want = met[np.ravel_multi_index(cand[0][0], (m,) * ntx)]
                ctx.check(abs(got - want) <= 10 * tol, 'not-k-best', 'K=%d: squared distance %r, the K-best search gives %r' % (K, float(got), float(want)))
                ctx.probe('kbest')
        elif det == 'ksoft':
            if nrx < ntx:
                continue
            cand, clear = kbest_ref()
            llr = ctx.lib(M.kbest, y, H, arg, K, sc['nv'], 'soft', demode)
            ctx.check(np.asarray(llr).shape == (ntx * nb,), 'wrong-length', '%s LLRs for %d bits' % (np.shape(llr), ntx * nb))
            if clear and cond < 1e6:
                ci = [t for t, _ in cand]
                compare_llr(llr, maxlog(ci, np.array([met[np.ravel_multi_index(t, (m,) * ntx)] for t in ci])), 'kbest K=%d' % K)
                ctx.probe('kbest-soft')
                if K >= m ** ntx:
                    ctx.probe('kbest-soft-exhaustive')
        elif det == 'maxlog':
            n = min(len(pts), 1 + rng.randint(len(pts)))
            sel = rng.choice(len(pts), n, False)
            L = const[pts[sel]].T
            llr = ctx.lib(M.max_log_approx, y, H, sc['nv'], L, demode)
            compare_llr(llr, maxlog(pts[sel], met[sel]), 'max_log_approx over %d points' % n)
            ctx.probe('max-log')
        else:
            large = sc['stack'] == 'large'
            sizes = tuple([m ** ntx] * (ntx - 1)) if large else tuple([sc['stack']] * (ntx - 1))
            llr = np.asarray(ctx.lib(M.best_first_detector, y, H, arg, sizes, sc['nv'], demode, sc['llr_max']))
            ctx.check(llr.shape == (ntx * nb,), 'wrong-length', '%s LLRs for %d bits' % (llr.shape, ntx * nb))
            ctx.check(not np.isnan(llr).any() and (np.abs(llr) <= sc['llr_max'] + tol).all(), 'not-clipped', 'LLRs %s exceed %g' % (llr, sc['llr_max']))
            srt = np.sort(met)
            B = np.array([bits_of(p) for p in pts]).reshape(len(pts), -1)
            hard = (llr < 0).astype(int)
            # a zero LLR leaves its bit open
            ok = ((B == hard) | (llr == 0)).all(1)
            if large and cond < 1e6:
                ctx.check(ok.any() and met[ok].min() <= lo + tol, 'not-closest', 'best-first decided a word at squared distance %r, the closest is at %r' % (
                    float(met[ok].min()), float(lo)))
                d = maxlog(pts, met)
                exact = np.clip(d[:, 1] - d[:, 0], -sc['llr_max'], sc['llr_max'])
                if not (np.abs(llr - exact) <= 10 * tol).all():
                    best = met.reshape((m,) * ntx).min(0).reshape(-1)              # best completion of each path of the tree
                    second = min(np.sort(best)[1] - best.min(), sc['llr_max'])
                    if (np.abs(np.abs(llr) - second) <= 10 * tol).all():
                        finding = 'LLR magnitude %r for every bit (the runner-up leaf), max-log gives %s' % (float(second), np.round(exact, 3).tolist())
                    else:
                        ctx.check(False, 'wrong-llr', 'best-first LLRs %s, max-log gives %s' % (llr.tolist(), exact.tolist()))
                ctx.probe('best-first')
            if not noisy and cond < 1e4 and srt[1] > tol * 100:
                ctx.check(ok.any() and met[ok].min() <= tol, 'noiseless-error', 'best-first did not return the sent word without noise')
                ctx.probe('best-first-noiseless')
        used += 1
        ctx.state(det, c, ntx, nrx, K, idx.tolist(), np.round(y, 3).tolist())
    ctx.time('vectors', used)
    # documented refusals
    if sc['det'] == 'kbest' and ntx > 1:
        for bad, args in (('more columns than rows', (np.ones(1), np.ones((1, ntx)), arg, K)),):
            try:
                M.kbest(*args)
            except ValueError:
                ctx.probe('refused')
            else:
                ctx.check(False, 'accepted', bad)
    ctx.check(finding is None, 'best-first-common-magnitude', finding)
