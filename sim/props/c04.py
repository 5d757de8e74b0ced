"""C04: simulations do not depend on earlier, failed or aborted ones; callback failures reach the caller."""
from .. import linksim as L
from ..core import isolated
from ..seams import SIM, SimInterrupt, Tracer

SHRINK_LISTS = ('history', 'final.plan', 'final.snrs')
SHRINK_INTS = (('final.send_max', 1), ('final.err_min', 1))


def gen(r, tier, index):
    link = L.gen_link(r, real=0.5)
    apis = ['func', 'method', 'full']
    hist = []
    for _ in range(r.choice([1, 2, 2, 3, 4])):
        other = dict(link)
        if r.random() < 0.5:
            other['rate'] = list(r.choice(L.RATES))
            other['rate_form'] = r.choice(['fraction', 'float'])
        s = L.gen_sim(r, other, r.choice(apis), max_bits=600)
        s['rate'] = other['rate']
        s['rate_form'] = other['rate_form']
        f = r.random()
        s['fault'] = None
        if f < 0.4:
            s['fault'] = ['cb', r.choice([1, 2, 3, 4, 5, r.randrange(1, 30)]), r.choice(sorted(L.EXCS))]
        elif f < 0.7:
            s['fault'] = ['line', int(10 ** (r.random() * 3.2))]
        hist.append(s)
    final = L.gen_sim(r, link, r.choice(apis), max_bits=900)
    if r.random() < 0.5:
        final['snr_form'] = 'array'
    return {'link': link, 'history': hist, 'final': final, 'seed': r.randrange(1 << 31),
            'reconfig': r.random() < 0.3}


def transcript(rec):
    out = []
    for e in rec.hist:
        out.append((e['msg'], e.get('symbs'), e.get('out'), e.get('gains'), e.get('std'),
                    [(c['y'], c['h'], c['nv'], c['ret']) for c in e['rx']],
                    None if e['dec'] is None else sorted((k, v) for k, v in e['dec'].items())))
    return out


def fresh(link, final, seed):
    rec = L.Recorder(link)
    res = rec.run(final, seed)
    return res, transcript(rec), (rec.model.rate, rec.channel.noise_std)


def equal(np, a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(equal(np, x, y) for x, y in zip(a, b))
    if a is None or isinstance(a, str):
        return a == b
    a = np.asarray(a)
    b = np.asarray(b)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True))


def run(sc, ctx):
    link, final = sc['link'], sc['final']
    ref = isolated(fresh, link, final, sc['seed'])
    if ref[0] == 'exc':
        ctx.check(False, 'unexpected-exception', '%s: %s on a fresh model' % (ref[1], ref[2]))
    rec = L.Recorder(link)
    np = rec.np
    outcomes = []
    for s in sc['history']:
        rec.link = dict(link, rate=s['rate'], rate_form=s['rate_form'])
        f = s['fault']
        exc = None
        np.random.seed(s['seed'] % (1 << 31))
        try:
            if f and f[0] == 'cb':
                exc = L.EXCS[f[2]]('injected')
                rec.fault = (f[1], exc)
                res = rec.run(s)
                # the callback count may stay below the planned one
                outcomes.append('done' if rec.fault is not None else 'swallowed')
            elif f:
                with Tracer(at=f[1], exc=SimInterrupt('injected')) as t:
                    rec.run(s)
                outcomes.append('swallowed' if t.hit else 'done')
            else:
                ctx.lib(rec.run, s)
                outcomes.append('done')
        except SimInterrupt:
            SIM.fired('interrupt')
            outcomes.append('interrupted')
        except BaseException as e:
            if exc is None or e is not exc:
                if isinstance(e, (L.Violation,)):
                    raise
                ctx.check(exc is None, 'failure-replaced', 'a callback raised %r, the caller got %r' % (exc, e))
                raise
            outcomes.append('failed-' + f[2])
        ctx.check(outcomes[-1] != 'swallowed', 'failure-swallowed', 'a failure injected by %r never reached the caller' % (f,))
        rec.fault = None
    rec.link = link
    if sc['reconfig'] and link['kind'] == 'mimo':
        # the caller reconfigures the channel the same way as at construction
        fp = rec.channel.fading_param
        rec.channel.fading_param = fp
    res = ctx.lib(rec.run, final, sc['seed'])
    tr = transcript(rec)
    ctx.check(equal(np, ref[1][0], res), 'result-differs', 'after %s the simulation gives %s, a fresh model %s' % (
        outcomes, np.asarray(res[0]).tolist(), np.asarray(ref[1][0][0]).tolist()))
    ctx.check(len(tr) == len(ref[1][1]), 'history-differs', 'after %s: %d transmissions, fresh model %d' % (
        outcomes, len(tr), len(ref[1][1])))
    ctx.check(equal(np, ref[1][1], tr), 'history-differs', 'after %s the simulation sent or decoded other data than on a '
              'fresh model' % (outcomes,))
    ctx.check(rec.model.rate == ref[1][2][0], 'rate-attribute', 'model.rate is %r, fresh model has %r' % (
        rec.model.rate, ref[1][2][0]))
    ctx.time('symbol_periods', sum(e['out'].shape[0] for e in rec.hist))
    for o in outcomes:
        ctx.probe('history-' + o.split('-')[0])
    ctx.nontrivial = True
    ctx.state(link['kind'], link['decoder'], outcomes, [s['api'] for s in sc['history']], final['api'])
