"""C21: the iterative detection and decoding helper."""
import random

from ..core import Violation
from ..linksim import EXCS
from ..seams import SIM

SHRINK_LISTS = ('calls',)


def gen(r, tier, index):
    calls = []
    for _ in range(r.choice([1, 2, 3])):
        calls.append({'nvec': r.randrange(1, 7), 'nrx': r.randrange(1, 4), 'ntx': r.randrange(1, 4), 'bps': r.randrange(1, 7),
                      'seed': r.randrange(1 << 30), 'fail': r.choice([None, None, r.randrange(1, 20)]),
                      'exc': r.choice(sorted(EXCS)), 'tail': r.choice([0, 0, 0, 3])})
    return {'n_it': r.choice([1, 1, 2, 3, 5]), 'calls': calls, 'scale': r.choice([1.0, 1e3, 1e-3]),
            'inplace': r.random() < 0.2}


def run(sc, ctx):
    import numpy as np
    from commpy.links import idd_decoder
    state = {}

    def llr_map(seed, n, x):
        rs = np.random.RandomState((seed * 7919 + n) % (1 << 32))
        return np.tanh(x / sc['scale']) * sc['scale'] * rs.uniform(0.5, 2) + rs.standard_normal(len(x)) * sc['scale']

    def tick():
        state['n'] += 1
        if state['fail'] is not None and state['n'] == state['fail']:
            SIM.fired('callback-failure')
            raise state['exc']

    def decoder(llrs):
        tick()
        inp = np.array(llrs)
        out = llr_map(state['seed'], 1000 + state['nd'], inp)
        state['nd'] += 1
        state['log'].append(('dec', inp, out.copy()))
        return out

    def detector(y, h, constellation, noise_var, a_priori):
        tick()
        inp = np.array(a_priori)
        out = llr_map(state['seed'], 5000 + state['ndet'], inp) + np.abs(y).sum() + np.abs(h).sum()
        state['ndet'] += 1
        state['log'].append(('det', inp, out.copy(), np.array(y), np.array(h), np.array(constellation), noise_var))
        if sc['inplace']:
            state['shared'] = out
        return out

    def decision(llrs):
        tick()
        inp = np.array(llrs)
        state['log'].append(('fin', inp))
        return (inp > 0).astype(int)

    dec = idd_decoder(detector, decoder, decision, sc['n_it'])
    for c in sc['calls']:
        rs = np.random.RandomState(c['seed'])
        y = rs.standard_normal((c['nvec'], c['nrx'])) + 1j * rs.standard_normal((c['nvec'], c['nrx']))
        H = rs.standard_normal((c['nvec'], c['nrx'], c['ntx'])) + 1j * rs.standard_normal((c['nvec'], c['nrx'], c['ntx']))
        const = np.array([1, -1, 1j, -1j])
        nv = float(rs.uniform(0.1, 2))
        a = rs.standard_normal(c['nvec'] * c['bps'] + c['tail']) * sc['scale']
        keep = [v.copy() for v in (y, H, const, a)]
        state.update(n=0, nd=0, ndet=0, seed=c['seed'], log=[], fail=c['fail'], exc=EXCS[c['exc']]('injected'))
        try:
            res = dec(y, H, const, nv, a, c['bps'])
            failed = False
        except BaseException as e:
            if e is not state['exc']:
                if isinstance(e, Violation) or c['fail'] is not None and not isinstance(e, Exception):
                    raise
                ctx.check(False, 'unexpected-exception', '%r instead of %r' % (e, state['exc'] if c['fail'] else 'a result'))
            failed = True
        total = sc['n_it'] * (1 + c['nvec']) + 1
        if c['fail'] is not None and c['fail'] <= total:
            ctx.check(failed, 'failure-swallowed', 'the failure of callback %d never reached the caller' % c['fail'])
        for v, k, n in zip((y, H, const, a), keep, ('y', 'h', 'constellation', 'a_priori')):
            ctx.check(np.array_equal(v, k), 'input-altered', '%s was modified' % n)
        # executable model of the exchange
        cur = a.copy()
        log = list(state['log'])
        want_calls = []
        pos = 0

        def nxt(kind):
            nonlocal pos
            ctx.check(pos < len(log), 'missing-call', '%s call %d missing' % (kind, pos))
            e = log[pos]
            ctx.check(e[0] == kind, 'call-order', 'call %d is %s, expected %s' % (pos, e[0], kind))
            pos += 1
            return e

        def close(u, v, what):
            ctx.check(u.shape == v.shape and np.allclose(u, v, rtol=1e-8, atol=1e-8 * sc['scale']), 'exchange',
                      'iteration input of %s differs by %s' % (what, np.abs(u - v).max() if u.shape == v.shape else (u.shape, v.shape)))
        ext = None
        done = False
        for it in range(sc['n_it']):
            if failed and pos >= len(log):
                done = True
                break
            e = nxt('dec')
            close(e[1], cur, 'decoder %d' % it)
            ext = e[2] - cur
            for i in range(c['nvec']):
                if failed and pos >= len(log):
                    done = True
                    break
                sl = slice(i * c['bps'], (i + 1) * c['bps'])
                d = nxt('det')
                close(d[1], ext[sl], 'detector %d/%d' % (it, i))
                ctx.check(np.array_equal(d[3], y[i]) and np.array_equal(d[4], H[i]) and np.array_equal(d[5], const) and d[6] == nv,
                          'detector-context', 'detector call %d/%d got the data of another vector' % (it, i))
                cur[sl] = d[2]
            if done:
                break
            cur = cur - ext
        if not failed:
            f = nxt('fin')
            close(f[1], cur + ext, 'decision')
            ctx.check(np.array_equal(res, (f[1] > 0).astype(int)), 'decision', 'the result is not what the decision returned')
            ctx.check(pos == len(log), 'extra-call', '%d calls, expected %d' % (len(log), pos))
            ctx.probe('completed')
            ctx.nontrivial = True
        else:
            ctx.probe('failed')
        ctx.time('callback_calls', len(log))
        ctx.state(sc['n_it'], c['nvec'], c['bps'], failed, len(log))
