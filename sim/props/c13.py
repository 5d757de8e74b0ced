"""C13: the 802.11 chain delivers every frame within its coding margin."""
from .. import convsim as V
from ..seams import SIM, AllocPolicy, CallbackFault

SHRINK_LISTS = ('faults', 'sims')
SHRINK_INTS = ()
TIMEOUT = 120.0
BUDGET = 6000000

CODING = [(1, 2), (1, 2), (3, 4), (1, 2), (3, 4), (2, 3), (3, 4), (5, 6), (3, 4), (5, 6)]
BITS = [1, 2, 2, 4, 4, 6, 6, 6, 8, 8]
PATTERN = {(1, 2): [1, 1], (2, 3): [1, 1, 1, 0], (3, 4): [1, 1, 1, 0, 0, 1], (5, 6): [1, 1, 1, 0, 0, 1, 1, 0, 0, 1]}
# octal 133, 171, most significant bit undelayed
STD = {'mem': [6], 'g': [[V.rev(0o133, 7), V.rev(0o171, 7)]], 'fb': None}


def gen(r, tier, index):
    mcs = r.randrange(10) if r.random() < 0.9 else index % 10
    # PSKModem(2) carries one bit per symbol
    sims = []
    for _ in range(r.choice([1, 1, 1, 2])):
        agg = r.choice([1, 1, 2, 3])
        sims.append({'mcs': mcs if r.random() < 0.8 else r.randrange(10), 'chunk': r.randrange(1, 70 // agg), 'agg': agg,
                     'tx': r.choice([1, 1, 2]), 'snrs': [r.choice([45, 50, 60, 100])] * r.choice([1, 1, 2]),
                     'err_min': r.choice([0, 1, 5]), 'stop': r.random() < 0.5,
                     'channel': r.choice(['clean', 'clean', 'phase', 'rayleigh', 'mimo1', 'mimo2']),
                     'receiver': r.choice(['default', 'faulty', 'faulty', 'faulty', 'faulty']),
                     'raise_at': r.choice([None] * 8 + [0, 1])})
    ev = V.min_event(V.Code(STD))
    faults = []
    for _ in range(r.choice([0, 2, 4, 8])):
        mode = r.random()
        if mode < 0.6:
            w, outs = ev
            start = r.choice([0, r.randrange(70), r.randrange(70)])
            sup = [(start + t) * 2 + j for t, o in enumerate(outs) for j, b in enumerate(o) if b]
            r.shuffle(sup)
            faults += [[p, 'flip', 1.0] for p in sup[:4]]
            faults.append([sup[4], 'weak', 0.3])
        else:
            faults.append([r.randrange(160), r.choice(['flip', 'flip', 'erase', 'weak', 'flip-weak']), r.choice([0.1, 0.5, 1.0])])
    return {'sims': sims, 'faults': faults[:24], 'seed': r.randrange(1 << 30), 'poison': r.random() < 0.3, 'share': r.random() < 0.7}


def make_channel(np, kind, bits):
    from commpy.channels import SISOFlatChannel, MIMOFlatChannel
    if kind in ('clean', 'phase', 'rayleigh'):
        ch = SISOFlatChannel()
        ch.fading_param = {'clean': (1 + 0j, 0), 'phase': (np.exp(0.7j), 0), 'rayleigh': (0j, 1)}[kind]
        return ch
    n = 1 if kind == 'mimo1' else 2
    ch = MIMOFlatChannel(n, n)
    ch.uncorr_rayleigh_fading(complex)
    return ch


def run(sc, ctx):
    import numpy as np
    from commpy import wifi80211
    np.random.seed(sc['seed'])
    if sc['poison']:
        SIM.alloc = AllocPolicy('junk', sc['seed'])
    code = V.Code(STD)
    objs = {}
    sent_msgs = []
    orig_choice = np.random.choice

    def choice(*a, **k):
        out = orig_choice(*a, **k)
        sent_msgs.append(np.array(out))
        return out
    np.random.choice = choice
    for sim in sc['sims']:
        w = objs.get(sim['mcs']) if sc['share'] else None
        w = w or wifi80211.Wifi80211(sim['mcs'])
        objs[sim['mcs']] = w
        one(np, sc, sim, ctx, w, code, sent_msgs)


def one(np, sc, sim, ctx, w, code, sent_msgs):
    c0, c1 = CODING[sim['mcs']]
    pat = PATTERN[(c0, c1)]
    modem = ctx.lib(w.get_modem)
    bps = modem.num_bits_symbol
    ctx.check(bps == BITS[sim['mcs']], 'wrong-modulation', 'MCS %d uses %d bits per symbol' % (sim['mcs'], bps))
    ch = make_channel(np, sim['channel'], bps)
    # frame size: whole coded symbol vectors
    from fractions import Fraction
    unit = (Fraction(1, bps * ch.nb_tx) / Fraction(c0, c1)).denominator
    frame = max(unit, sim['chunk'] // unit * unit)
    total = frame * sim['agg']
    ncoded = 2 * total
    where = [i for i in range(ncoded) if pat[i % len(pat)]]
    stats = {'calls': 0, 'hit': 0, 'tx': 0, 'margin': None}
    state = {}
    vec = ch.nb_tx * bps
    nvec = len(where) // vec

    def inject(llr, msg_pos):
        """llr of a whole transmission (kept positions) -> faulted llr within the margin of the code"""
        sent = (llr > 0)
        full = np.zeros(ncoded)
        full[where] = np.clip(llr, -500, 500)
        if sent_msgs and len(sent_msgs[-1]) == total:
            ref, st = code.encode(sent_msgs[-1])
            want = [b for i, b in enumerate(ref) if pat[i % len(pat)]]
            ctx.check([int(x) for x in sent] == want, 'wrong-coded-bits', 'MCS %d: transmitted coded bits differ from the standard code' % sim['mcs'])
            ctx.probe('coded-bits-compared')
            truth = ref
        else:
            return full[where]
        n_steps = V.library_steps(code, ncoded)
        true_bits = V.true_values(code, truth, st, n_steps)
        kept = full.copy()
        eff = max(2, min(30, total, n_steps + 1))

        def margin(f):
            v = V.advantage(np, 'soft', f, true_bits, 2, n_steps)
            return V.margin(np, code, v, total, eff, n_steps)
        ctx.check(margin(kept) > 0, 'harness', 'clean frame is not decodable')
        done = 0
        for pos, what, strength in sc['faults'][:10 if stats['tx'] == 0 else 4]:
            i = where[pos % len(where)] if pos >= ncoded or pos not in where else pos
            cand = kept.copy()
            x = 1.0 if full[i] > 0 else -1.0
            cand[i] = {'flip': -strength, 'flip-weak': -0.1, 'erase': 0.0, 'weak': strength}[what] * abs(full[i]) * x
            if margin(cand) > 1e-3:
                kept = cand
                done += 1
        stats['hit'] += done
        stats['tx'] += 1
        return kept[where]

    def demod(y, h, nv):
        if ch.nb_tx == 1 and not hasattr(h, 'ndim') or np.ndim(h) <= 1:
            return modem.demodulate(y / h, 'soft', nv)
        eq = np.linalg.solve(h, y)
        return modem.demodulate(eq, 'soft', nv)

    def maybe_raise():
        if sim['raise_at'] is not None and stats['calls'] == sim['raise_at'] * (nvec if ch.nb_rx > 1 or sim['channel'] == 'mimo1' else 1):
            SIM.fired('receiver-failure')
            stats['calls'] += 1
            raise CallbackFault('receiver down')
        stats['calls'] += 1

    def receiver(y, h, constellation, noise_var):
        maybe_raise()
        return inject(demod(y, h, noise_var), 0)

    def receiver_mimo(y, h, constellation, noise_var):
        # soft values of the whole transmission are planned at the first vector
        maybe_raise()
        i = state.get('i', 0)
        if i == 0:
            state['plan'] = inject(np.concatenate([demod(a, b, noise_var) for a, b in zip(state['out'](), ch.channel_gains)]), 0)
        state['i'] = (i + 1) % nvec
        return state['plan'][i * vec:(i + 1) * vec]
    mimo = sim['channel'].startswith('mimo')
    rcv = None
    if sim['receiver'] == 'faulty' or mimo or sim['channel'] in ('rayleigh', 'phase'):
        rcv = receiver_mimo if mimo else receiver
    if mimo:
        orig = ch.propagate

        def propagate(msg):
            out = orig(msg)
            state['last'] = out
            state['i'] = 0
            return out
        ch.propagate = propagate
        state['out'] = lambda: state['last']
    snrs = [s + (60 if sim['channel'] in ('rayleigh', 'mimo1', 'mimo2') else 0) for s in sim['snrs']]

    def simulate():
        return w.link_performance(ch, snrs, sim['tx'], sim['err_min'], sim['chunk'], sim['agg'], rcv, sim['stop'])
    if rcv is not None and sim['raise_at'] is not None:
        try:
            simulate()
            raised = False
        except CallbackFault:
            raised = True
        ctx.check(raised or 'receiver-failure' not in SIM.counts, 'failure-swallowed', 'the receiver failed and the simulation returned')
        ctx.probe('receiver-failed')
        sim = dict(sim, raise_at=None)
        state.pop('i', None)
        stats.update(calls=10 ** 9)
    res = ctx.lib(simulate)
    ctx.check(len(res) == 4, 'shape', '%d results' % len(res))
    bers, bes, ces, ncs = [np.asarray(x) for x in res]
    ran = len(snrs) if sim['err_min'] == 0 else 1
    want = np.zeros((len(snrs), sim['tx']), int)
    want[:ran] = sim['agg']
    ctx.check(not bes.any() and not ces.any() and not bers.any(), 'frame-errors', 'MCS %d, frame %d x %d, channel %s: bit errors %s, '
              'chunk errors %s, BER %s with %d faults inside the margin' % (sim['mcs'], frame, sim['agg'], sim['channel'], bes.tolist(), ces.tolist(),
                                                                        bers.tolist(), stats['hit']))
    ctx.check(ncs.shape == want.shape and (ncs == want).all(), 'chunk-count', 'chunks %s, expected %s' % (ncs.tolist(), want.tolist()))
    ctx.fault('channel-fault', stats['hit'])
    ctx.probe('mcs-%d' % sim['mcs'])
    if stats['hit']:
        ctx.probe('faults-corrected')
    if sim['agg'] > 1:
        ctx.probe('aggregated')
    ctx.time('coded_bits', 2 * total * sim['tx'] * ran)
    ctx.state(sim['mcs'], frame, sim['agg'], sim['channel'], stats['hit'], rcv is None)
