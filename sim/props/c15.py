"""C15: LDPC links: valid codewords, faithful belief propagation, independent blocks."""
import os

from .. import ldpcsim as L
from ..seams import SIM, AllocPolicy

SHRINK_LISTS = ('faults', 'msgs')
SHRINK_INTS = (('iters', 0),)
DESIGNS = ['gallager/96.3.963.txt', 'gallager/96.33.964.txt', 'wimax/960.720.a.txt', 'wimax/1440.720.txt']
TIMEOUT = 90.0
_codes = {}


def prepare():
    """Design files are loaded once, before the runs are forked off."""
    import warnings
    from commpy.channelcoding import ldpc
    from ..seams import REPO
    for d in DESIGNS[:3]:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                p = ldpc.get_ldpc_code_params(os.path.join(REPO, 'commpy/channelcoding/designs/ldpc', d), True)
        except Exception as e:                                  # reported by the runs that use it
            p = e
        _codes[d] = p


def gen(r, tier, index):
    x = r.random()
    if x < 0.80:
        code = L.gen_matrix(r, square_inv=True, big=r.random() < 0.4)
    elif x < 0.97:
        code = r.choice(DESIGNS[:2])
    else:
        code = DESIGNS[2]
    nb = r.choice([1, 1, 2, 2, 3, 4]) if isinstance(code, dict) else r.choice([1, 1, 2])
    faults = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9])):
        faults.append([r.randrange(nb), r.randrange(4000), r.choice(['flip', 'erase', 'erase', 'impulse', 'weak']),
                       r.choice([0.25, 1.0, 7.5, 40.0, 900.0])])
    return {'code': code, 'lazy': r.random() < 0.3, 'msgs': [r.randrange(1 << 30) for _ in range(nb)],
            'short': r.choice([0, 0, 0, 1, 2]), 'iters': r.choice([0, 1, 1, 2, 3, 4, 6, 10]) if code != DESIGNS[2] else r.choice([1, 2]),
            'alg': r.choice(['SPA', 'MSA']), 'amp': r.choice([0.5, 1.0, 2.0, 4.0, 12.0, 100.0, 600.0]), 'noise': r.choice([0, 0, 0.3, 0.8, 2.0]),
            'dyadic': r.random() < 0.5, 'seed': r.randrange(1 << 30), 'faults': faults, 'poison': r.random() < 0.4,
            'mdtype': r.choice(['int64', 'int8', 'uint8', 'float64', 'bool', 'bool']), 'before': r.random() < 0.3,
            'dense': r.random() < 0.1,
            'noncode': r.random() < 0.15}


def reference(np, rows, nv, llr, iters, alg, eps=0.0):
    """Belief propagation on edge lists.  Returns decisions, LLRs, iterations done, ambiguous."""
    import math
    llr = [max(-500.0, min(500.0, float(x))) for x in llr]
    cols = [[] for _ in range(nv)]
    v2c = []
    for c, row in enumerate(rows):
        v2c.append([llr[v] for v in row])
        for i, v in enumerate(row):
            cols[v].append((c, i))
    out = list(llr)
    ambiguous = False
    done = 0
    for it in range(iters):
        bits = [1 if o < 0 else 0 for o in out]
        if all(sum(bits[v] for v in row) % 2 == 0 for row in rows):
            break
        c2v = []
        for c, row in enumerate(rows):
            m = v2c[c]
            n = len(m)
            res = []
            if alg == 'SPA':
                t = [math.tanh(x / 2) for x in m]
                pre = [1.0]
                for x in t:
                    pre.append(pre[-1] * x)
                suf = 1.0
                for i in range(n - 1, -1, -1):
                    p = pre[i] * suf * (1 + eps)
                    suf *= t[i]
                    if p >= 1 or p <= -1:
                        res.append(500.0 if p > 0 else -500.0)
                    else:
                        res.append(max(-500.0, min(500.0, 2 * math.atanh(p))))
                res.reverse()
            else:
                for i in range(n):
                    o = m[:i] + m[i + 1:]
                    s = 1
                    for x in o:
                        s *= (x > 0) - (x < 0)
                    res.append(s * min([abs(x) for x in o] or [500.0]))
            c2v.append(res)
        big = 0.0
        for v in range(nv):
            inc = [c2v[c][i] for c, i in cols[v]]
            tot = sum(inc) + llr[v]
            mag = max([abs(x) for x in inc] + [abs(llr[v])])
            big = max(big, mag)
            out[v] = tot
            if mag > 0 and abs(tot) <= 1e-9 * mag and (alg == 'SPA' or tot != 0):
                ambiguous = True
            for (c, i), x in zip(cols[v], inc):
                v2c[c][i] = tot - x
        done += 1
    return [1 if o < 0 else 0 for o in out], out, done, ambiguous


def run(sc, ctx):
    import random
    import numpy as np
    from commpy.channelcoding import ldpc
    if isinstance(sc['code'], dict):
        d = L.rewrite_cost_dir()
        try:
            path = os.path.join(d, 'code.txt')
            with open(path, 'w') as f:
                f.write(L.text_of(sc['code']))
            par = ctx.lib(ldpc.get_ldpc_code_params, path, not sc['lazy'])
        finally:
            L.cleanup(d)
        rows, nv = sc['code']['rows'], sc['code']['nv']
    else:
        par = _codes[sc['code']]
        ctx.check(not isinstance(par, Exception), 'design-not-loaded', repr(par))
        (nv, nc, edges), _ = L.code_of(np, par)
        rows = [[] for _ in range(nc)]
        for c, v in sorted(edges):
            rows[c].append(v)
        H0 = par['parity_check_matrix'].toarray()
        if sc['lazy']:
            par = {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in par.items() if k == 'parity_check_matrix' or 'matrix' not in k}
    nc = len(rows)
    k = nv - nc
    H = np.zeros((nc, nv), int)
    for c, row in enumerate(rows):
        H[c, row] = 1
    if sc['poison']:
        SIM.alloc = AllocPolicy('junk', sc['seed'])
    triangular = isinstance(sc['code'], dict) or sc['code'].startswith('wimax')
    nb = len(sc['msgs'])
    rng = np.random.RandomState(sc['seed'] % (2 ** 32))
    if nb == 0:
        return

    # ---------------------------------------------------------------- encoding
    words = np.zeros((nv, nb), int)
    if triangular:
        msg = []
        for s in sc['msgs']:
            r = random.Random(s)
            msg += [r.randrange(2) for _ in range(k)]
        cut = min(sc['short'], k - 1)
        sent = msg[:len(msg) - cut]
        arr = np.array(sent, dtype=sc['mdtype'])
        if sc['dense'] and par.get('generator_matrix') is not None:    # documented: a 2D array is as good as a sparse matrix
            par['generator_matrix'] = par['generator_matrix'].toarray()
            ctx.probe('dense-generator')
        keep = arr.copy()
        if cut:
            try:
                ldpc.triang_ldpc_systematic_encode(arr, par, False)
            except ValueError:
                ctx.probe('partial-block-refused')
            else:
                ctx.check(False, 'partial-block-accepted', '%d bits for blocks of %d without padding' % (len(sent), k))
        cw = np.asarray(ctx.lib(ldpc.triang_ldpc_systematic_encode, arr, par, True))
        ctx.check((arr == keep).all(), 'input-altered', 'encoding altered the message')
        ctx.check(cw.size == nv * nb, 'wrong-size', 'codewords of shape %s for %d blocks of %d' % (cw.shape, nb, nv))
        cw = cw.reshape(nv, nb)
        full = np.array(sent + [0] * cut).reshape(nb, k).T
        ctx.check((cw[:k] == full).all(), 'not-systematic', 'the message is not at the beginning of its block')
        ctx.check(set(np.unique(cw)) <= {0, 1}, 'not-bits', 'codeword values %s' % np.unique(cw))
        ctx.check((H.dot(cw.astype(int)) % 2 == 0).all(), 'invalid-codeword', lambda: 'checks %s fail' % np.nonzero(
            (H.dot(cw.astype(int)) % 2).any(1))[0][:5])
        words = cw.astype(int)
        ctx.probe('encoded')
        if nb > 1:
            ctx.probe('several-blocks')
    elif sc['noncode']:
        words = rng.randint(0, 2, (nv, nb))
    # ---------------------------------------------------------------- channel
    llr = sc['amp'] * (1.0 - 2 * words.T.reshape(-1)) * (1 + sc['noise'] * rng.standard_normal(nv * nb))
    hit = {}
    for b, pos, what, strength in sc['faults']:
        if b >= nb:
            continue
        i = b * nv + pos % nv
        hit.setdefault(b, set()).add(i)
        if what == 'flip':
            llr[i] = -llr[i]
        elif what == 'erase':
            llr[i] = 0.0
        elif what == 'weak':
            llr[i] = llr[i] / 16
        else:
            llr[i] = -strength if llr[i] > 0 else strength
    ctx.fault('channel-fault', sum(len(x) for x in hit.values()))
    if sc['dyadic']:
        llr = np.round(llr * 64) / 64
    llr = llr + 0.0                                                   # no negative zeros
    if sc['before']:
        ctx.lib(ldpc.ldpc_bp_decode, rng.standard_normal(nv * 2) * 3, par, sc['alg'], 2)
    dec, out = ctx.lib(ldpc.ldpc_bp_decode, llr.copy(), par, sc['alg'], sc['iters'])
    dec, out = np.asarray(dec), np.asarray(out)
    ctx.check(dec.size == nv * nb and out.size == nv * nb, 'wrong-size', 'decoded %s, LLRs %s for %d blocks of %d' % (dec.shape, out.shape, nb, nv))
    if nb > 1:
        ctx.check(dec.shape == (nv, nb) and out.shape == (nv, nb), 'wrong-size', 'shape %s for %d blocks' % (dec.shape, nb))
    dec, out = dec.reshape(nv, nb).astype(int), out.reshape(nv, nb)
    ctx.check(not np.isnan(out).any(), 'undefined-llr', lambda: '%d LLRs are NaN' % np.isnan(out).sum())
    clean = True
    for b in range(nb):
        x = llr[b * nv:(b + 1) * nv]
        ctx.check((dec[:, b] == (out[:, b] < 0)).all() and set(np.unique(dec[:, b])) <= {0, 1}, 'inconsistent-decision',
                  'block %d: decisions are not the signs of the LLRs' % b)
        hard = (x < 0).astype(int)
        if (H.dot(hard) % 2 == 0).all():
            ctx.check((dec[:, b] == hard).all(), 'codeword-changed', 'block %d satisfied all checks but was changed' % b)
            ctx.check((out[:, b] == np.clip(x, -500, 500)).all(), 'codeword-llr-changed', 'LLRs of the valid block %d were changed' % b)
            ctx.probe('codeword-kept')
        else:
            clean = False
        want, wllr, done, amb = reference(np, rows, nv, x, sc['iters'], sc['alg'])
        wllr = np.array(wllr)
        tol = 1e-7 * (1 + np.abs(wllr))
        if sc['alg'] == 'SPA' and not amb and done:
            for eps in (1e-12, -1e-12):
                w2, l2, d2, a2 = reference(np, rows, nv, x, sc['iters'], 'SPA', eps)
                if a2 or d2 != done or w2 != want or not (np.abs(np.array(l2) - wllr) <= tol).all():
                    amb = True
        if amb:
            ctx.probe('ill-conditioned')
            continue
        ctx.check(dec[:, b].tolist() == want, 'wrong-decision', lambda: 'block %d, %s, %d iterations: bits %s differ from belief propagation' % (
            b, sc['alg'], sc['iters'], np.nonzero(dec[:, b] != np.array(want))[0][:5]))
        ctx.check((np.abs(out[:, b] - wllr) <= 10 * tol).all(), 'wrong-llr', lambda: 'block %d, %s, %d iterations: LLR %r, belief propagation gives %r' % (
            b, sc['alg'], sc['iters'], float(out[np.argmax(np.abs(out[:, b] - wllr)), b]), float(wllr[np.argmax(np.abs(out[:, b] - wllr))])))
        ctx.probe('bp-compared')
        if done:
            ctx.probe('bp-iterated')
        if done and done < sc['iters']:
            ctx.probe('stopped-early')
        if hit.get(b) and want == words[:, b].tolist() and done:
            ctx.probe('faults-corrected')
        if (x == 0).any() and done:
            ctx.probe('erasures-iterated')
        ctx.time('bp_iterations', done)
        ctx.state(b, sc['alg'], done, np.round(wllr, 2).tolist())
    # ---------------------------------------------------------------- independence of the blocks
    for b in range(nb):
        one, ol = ctx.lib(ldpc.ldpc_bp_decode, llr[b * nv:(b + 1) * nv].copy(), par, sc['alg'], sc['iters'])
        ctx.check((np.asarray(one).reshape(-1) == dec[:, b]).all() and np.allclose(np.asarray(ol).reshape(-1), out[:, b], rtol=1e-12, atol=1e-12),
                  'blocks-interact', 'block %d of %d decodes differently alone' % (b, nb))
    if nb > 1:
        ctx.probe('independent-blocks')
