"""C01: BER accounting."""
from .. import linksim as L

BUDGET = 30000000
SHRINK_LISTS = ('sim.plan', 'sim.snrs')
SHRINK_INTS = (('sim.send_max', 1), ('sim.err_min', 1), ('sim.extra', 0))


def gen(r, tier, index):
    link = L.gen_link(r)
    api = r.choice(['func', 'method', 'full', 'full'])
    return {'link': link, 'sim': L.gen_sim(r, link, api)}


def run(sc, ctx):
    rec = L.Recorder(sc['link'])
    sim = sc['sim']
    np = rec.np
    res = ctx.lib(rec.run, sim)
    bers = res[0] if sim['api'] == 'full' else res
    ctx.check(len(bers) == len(sim['snrs']), 'shape', 'got %d ratios for %d SNRs' % (len(bers), len(sim['snrs'])))
    L.check_pairing(rec, ctx)
    groups = L.group(rec, ctx, sim)
    trace = []
    for i, g in enumerate(groups):
        sent = sum(len(e['msg']) for e in g)
        err = sum(L.errors_of(rec, e) for e in g)
        want = err / sent if sent else 0.0
        ctx.check(abs(bers[i] - want) <= 1e-12, 'ber', 'SNR %s: reported %r, history has %d wrong of %d sent = %r' % (
            sim['snrs'][i], float(bers[i]), err, sent, want))
        trace.append((err, sent))
        if err:
            ctx.nontrivial = True
            ctx.probe('errors-at-snr')
        if len(g) > 1:
            ctx.probe('several-transmissions')
    for e in rec.hist:
        ctx.check(set(np.unique(e['msg'])) <= {0, 1}, 'message-not-bits', 'message holds %r' % np.unique(e['msg']))
    if sc['link']['rx'] == 'hard':
        ctx.fault('channel-noise', len(rec.hist))
    ctx.state(sc['link']['kind'], sc['link']['decoder'], sim['api'], trace)
