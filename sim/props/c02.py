"""C02: frame rounding, stop rule, bit budget."""
from fractions import Fraction

from .. import linksim as L

BUDGET = 30000000
SHRINK_LISTS = ('sim.plan', 'sim.snrs')
SHRINK_INTS = (('sim.send_max', 1), ('sim.err_min', 1), ('sim.extra', 0))


def gen(r, tier, index):
    link = L.gen_link(r, decoders=('none', 'one', 'one', 'full'), real=0.15)
    return {'link': link, 'sim': L.gen_sim(r, link, r.choice(['func', 'method', 'method', 'full']), max_bits=1500)}


def run(sc, ctx):
    rec = L.Recorder(sc['link'])
    sim = sc['sim']
    link = sc['link']
    want = Fraction(*link['rate'])
    ctx.check(rec.model.rate == want, 'rate-attribute', lambda: 'rate of a new model is %r, given %s' % (rec.model.rate, want))
    res = ctx.lib(rec.run, sim)
    ctx.check(rec.model.rate == want, 'rate-attribute', lambda: 'rate of the model is %r, simulated %s' % (rec.model.rate, want))
    bers = res[0] if sim['api'] == 'full' else res
    for e in rec.hist:
        for i, c in enumerate(e['rx']):
            c['i'] = i
    frame = L.frame_of(link, sim['send_chunk'], sim['err_min'])
    nch = sim.get('chunks', 1)
    # replay the documented procedure over the recorded history
    t = 0
    stopped = False
    trace = []
    for i, snr in enumerate(sim['snrs']):
        if stopped:
            ctx.check(bers[i] == 0, 'late-snr', 'ratio %r reported for SNR %s after the simulation had ended' % (bers[i], snr))
            continue
        sent = err = n = 0
        std = L.expected_std(link, snr)

        def more():
            if sim['api'] == 'full':
                return n < sim['tx_max'] and not (sim['stop'] in (True, None) and err > sim['err_min'])
            return sent < sim['send_max'] and err < sim['err_min']
        while more():
            ctx.check(t < len(rec.hist), 'stopped-early', 'SNR %s: stopped after %d transmissions, %d bits, %d errors '
                      '(target %s, budget %s)' % (snr, n, sent, err, sim['err_min'], sim.get('send_max', sim.get('tx_max'))))
            e = rec.hist[t]
            ctx.check(abs(e['std'] - std) <= 1e-9 * std, 'noise-level', 'transmission %d should run at SNR %s (deviation %r) '
                      'but the channel had %r' % (t, snr, std, e['std']))
            ctx.check(len(e['msg']) == frame * nch, 'frame-size', 'transmission of %d bits; requested %r, error target %r, '
                      'unit %d: expected %d' % (len(e['msg']), sim['send_chunk'], sim['err_min'], L.unit_of(link), frame * nch))
            err += L.errors_of(rec, e)
            sent += len(e['msg'])
            n += 1
            t += 1
        trace.append((n, err >= sim['err_min']))
        if err < sim['err_min']:
            stopped = True
            ctx.probe('ended-below-target')
        else:
            ctx.probe('target-reached')
            if sim['api'] != 'full' and err == sim['err_min']:
                ctx.probe('target-hit-exactly')
        if sim['api'] != 'full' and sent == sim['send_max']:
            ctx.probe('budget-hit-exactly')
    ctx.check(t == len(rec.hist), 'kept-sending', '%d transmissions, the procedure ends after %d' % (len(rec.hist), t))
    ctx.time('symbol_periods', sum(e['out'].shape[0] for e in rec.hist))
    if any(n > 1 for n, _ in trace):
        ctx.nontrivial = True
    ctx.state(sim['api'], link['kind'], frame, trace)
