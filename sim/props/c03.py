"""C03: full-metric simulations."""
from .. import linksim as L

BUDGET = 30000000
SHRINK_LISTS = ('sim.plan', 'sim.snrs')
SHRINK_INTS = (('sim.tx_max', 1), ('sim.chunks', 1), ('sim.err_min', 1), ('sim.extra', 0))


def gen(r, tier, index):
    link = L.gen_link(r, decoders=('none', 'one', 'one', 'full'), real=0.2)
    return {'link': link, 'sim': L.gen_sim(r, link, 'full')}


def run(sc, ctx):
    rec = L.Recorder(sc['link'])
    sim = sc['sim']
    np = rec.np
    res = ctx.lib(rec.run, sim)
    ctx.check(len(res) == 4, 'shape', 'expected 4 results')
    bers, bes, ces, ncs = [np.asarray(x) for x in res]
    shape = (len(sim['snrs']), sim['tx_max'])
    ctx.check(bes.shape == shape and ces.shape == shape and ncs.shape == shape and bers.shape == shape[:1], 'shape',
              'shapes %s %s %s %s' % (bers.shape, bes.shape, ces.shape, ncs.shape))
    for e in rec.hist:
        for i, c in enumerate(e['rx']):
            c['i'] = i
    frame = L.frame_of(sc['link'], sim['send_chunk'], sim['err_min'])
    nch = sim['chunks']
    t = 0
    ended = False
    trace = []
    for i, snr in enumerate(sim['snrs']):
        be = np.zeros(sim['tx_max'], int)
        ce = be.copy()
        nc = be.copy()
        n = 0
        if not ended:
            while n < sim['tx_max'] and not (sim['stop'] in (True, None) and be.sum() > sim['err_min']):
                ctx.check(t < len(rec.hist), 'stopped-early', 'SNR %s: only %d transmissions, %d errors, target %d, stop %s' % (
                    snr, n, be.sum(), sim['err_min'], sim['stop']))
                e = rec.hist[t]
                ctx.check(len(e['msg']) == frame * nch, 'frame-size', '%d bits sent, %d chunks of %d expected' % (
                    len(e['msg']), nch, frame))
                wrong = (L.decoded_of(rec, e) != e['msg']).reshape(nch, frame)
                be[n] = wrong.sum()
                ce[n] = wrong.any(1).sum()
                nc[n] = nch
                if 1 < nch and 0 < ce[n] < nch:
                    ctx.probe('some-chunks-wrong')
                n += 1
                t += 1
            if be.sum() < sim['err_min']:
                ended = True
                ctx.probe('ended-below-target')
        want = be.sum() / (n * frame * nch) if n else 0.0
        ctx.check((bes[i] == be).all(), 'bit-errors', 'SNR %s: reported %s, history %s' % (snr, bes[i].tolist(), be.tolist()))
        ctx.check((ces[i] == ce).all(), 'chunk-errors', 'SNR %s: reported %s, history %s' % (snr, ces[i].tolist(), ce.tolist()))
        ctx.check((ncs[i] == nc).all(), 'chunk-count', 'SNR %s: reported %s, history %s' % (snr, ncs[i].tolist(), nc.tolist()))
        ctx.check(abs(bers[i] - want) <= 1e-12, 'ber', 'SNR %s: reported %r, history gives %r' % (snr, float(bers[i]), want))
        trace.append((be.tolist(), ce.tolist()))
    ctx.check(t == len(rec.hist), 'kept-sending', '%d transmissions, the procedure ends after %d' % (len(rec.hist), t))
    stored = rec.model.full_simulation_results
    ctx.check(stored is not None and all(np.array_equal(a, b) for a, b in zip(stored, res)), 'stored-results',
              'full_simulation_results differs from the returned results')
    ctx.time('symbol_periods', sum(e['out'].shape[0] for e in rec.hist))
    if nch > 1:
        ctx.probe('several-chunks')
    ctx.state(nch, trace)
