"""C35: a simulation that is saved and restarted, or duplicated, goes on as if nothing had happened."""
import copy
import os
import pickle
import random

from .. import ldpcsim as D
from .. import ops as O
from ..core import fork_call
from ..seams import SIM

SHRINK_LISTS = ('before', 'after', 'other')
TIMEOUT = 90.0
# operations on kept objects; files on disk are not part of a copy, and closures cannot be saved
KEPT = ['conv-encode', 'viterbi', 'viterbi-again', 'map', 'turbo-encode', 'turbo-decode', 'ldpc-encode', 'ldpc-decode', 'interlv', 'modulate',
        'demod-hard', 'demod-soft', 'siso', 'mimo', 'link', 'cfg-constellation', 'cfg-siso', 'cfg-mimo', 'cfg-snr', 'bad', 'wifi-kept',
        'ml', 'kbest']


def gen(r, tier, index):
    mode = r.choice(['restart', 'restart', 'copy', 'copy-goes-on'])
    skip = [k for k in O.OPS if k not in KEPT]
    args = [r.randrange(1 << 30) for _ in range(2)]

    def some(n):
        kinds = r.sample(KEPT, r.choice([1, 2, 4, len(KEPT)]))
        if r.random() < 0.6:
            kinds.append(r.choice(['cfg-constellation', 'cfg-siso', 'cfg-mimo', 'cfg-snr']))
        weights = [3 if k.startswith('cfg') or k == 'link' else 0.6 if k == 'wifi-kept' else 2 for k in kinds]
        return [[r.choices(kinds, weights)[0], r.choice(args) if r.random() < 0.2 else r.randrange(1 << 30), r.randrange(1 << 30)]
                for _ in range(n)]
    before, after = some(r.randrange(1, 7)), some(r.randrange(1, 6))
    for o in after:                                           # the same kinds of objects are used before and after
        if r.random() < 0.6:
            o[0] = r.choice(before)[0]
    other = some(r.randrange(1, 5))
    for o in other:
        if r.random() < 0.6:
            o[0] = r.choice(before + after)[0]
    world = r.randrange(1 << 30)
    return {'world': world | 1 if r.random() < 0.7 else world, 'before': before, 'after': after, 'other': other, 'mode': mode,
            'protocol': r.choice([2, 3, 4, 5]), 'reseed': r.random() < 0.5, 'seed': r.randrange(1 << 32), 'scribble': r.random() < 0.5}


# ------------------------------------------------------------------------------------------- partners that can be saved
class Modulator:
    def __init__(self, modem, trellis):
        self.modem, self.trellis = modem, trellis

    def __call__(self, bits):
        from commpy.channelcoding import conv_encode
        return self.modem.modulate(conv_encode(bits, self.trellis, 'cont'))


class Receiver:
    def __init__(self, modem, kind):
        self.modem, self.kind = modem, kind

    def receive(self, y, h, c, nv):
        from commpy.modulation import kbest
        if self.kind == 'soft':
            return self.modem.demodulate(y, 'soft', nv)
        return self.modem.demodulate(kbest(y, h, c, 8) if self.kind == 'kbest' else y / h, 'hard')


class Decoder:
    def __init__(self, trellis):
        self.trellis = trellis

    def __call__(self, msg):
        from commpy.channelcoding import viterbi_decode
        return viterbi_decode(msg, self.trellis, decoding_type='soft')


def identity(msg):
    return msg


class World(O.World):
    """The world of ops.py with partners of the link models that can be saved."""

    def mk_link(self, i, r):
        from fractions import Fraction
        from commpy import channels, links
        if i == 1:
            modem, t = self.get('modem', 2), self.get('trellis', 0)
            return links.LinkModel(Modulator(modem, t), channels.SISOFlatChannel(None, (1 + 0j, 0)), Receiver(modem, 'soft').receive,
                                   modem.num_bits_symbol, modem.constellation, modem.Es, Decoder(t), Fraction(1, 2))
        modem = self.get('modem', 3 if i == 2 else 2)
        if i in (2, 4):
            ch = channels.MIMOFlatChannel(2, 2)
            ch.uncorr_rayleigh_fading(complex)
        else:
            ch = channels.SISOFlatChannel(None, (0.6 + 0j, 0.64))
        return links.LinkModel(modem.modulate, ch, Receiver(modem, 'kbest' if i in (2, 4) else 'divide').receive, modem.num_bits_symbol,
                               modem.constellation, modem.Es, identity)

    def mk_wifi(self, i, r):
        from commpy.wifi80211 import Wifi80211
        return Wifi80211(i)


def prepared(w, o):
    if o[0] != 'wifi-kept':
        return O.prepare(w, o)
    rs = w.np.random.RandomState(o[1])
    wi = w.get('wifi', w.idx(rs, 3))
    ch = w.get('siso', 1)
    return O.Call(wi.link_performance, ch, [float(rs.randint(0, 9))], 1, 2, 24)


def perform(w, ops, reseed, saved=False):
    out = []
    for o in ops:
        if o[0] == 'wifi-kept' and saved:
            continue                                          # holds local functions once it has run
        c = prepared(w, o)
        if reseed:
            O.stream(o)
        try:
            c.run()
            out.append(('ok', c.value(), O.stream_state(w.np)))
        except Exception as e:
            out.append(('exc', type(e).__name__, str(e)[:200]))
    return out


def objects(w):
    return {k: O.canon(v) for k, v in list(w.own.items()) + list(w.shared.items()) if not k.startswith('file')}


def start(sc):
    import numpy as np
    w = World(sc['world'])
    np.random.seed(sc['seed'] % (1 << 32))
    return w


def uninterrupted(sc):
    w = start(sc)
    try:
        perform(w, sc['before'], sc['reseed'], sc['mode'] == 'restart')
        return perform(w, sc['after'], sc['reseed']), objects(w)
    finally:
        D.cleanup(w.dir)


def until_saved(sc):
    import numpy as np
    w = start(sc)
    try:
        perform(w, sc['before'], sc['reseed'], sc['mode'] == 'restart')
        return pickle.dumps((w.own, w.shared, np.random.get_state()), sc['protocol']), sorted(list(w.own) + list(w.shared))
    finally:
        D.cleanup(w.dir)


def overwrite(np, x, depth=0):
    """The owner of a copy overwrites the arrays recorded in it (not its configuration)."""
    for k in ('noises', 'channel_gains', 'unnoisy_output'):
        a = vars(x).get(k) if hasattr(x, '__dict__') else None
        if isinstance(a, np.ndarray) and a.flags.writeable and a.size:
            a[...] = 77
            SIM.fired('overwritten-copy')


def run(sc, ctx):
    import numpy as np
    a = fork_call(uninterrupted, (sc,), 60)
    assert a[0] == 'ok', a
    then, final = a[1]
    if sc['mode'] == 'restart':
        b = fork_call(until_saved, (sc,), 60)
        ctx.check(b[0] == 'ok', 'not-saved', lambda: 'saving after %s: %s' % ([o[0] for o in sc['before']], b[1:]))
        data, kept = b[1]
        SIM.fired('crash-restart')
        w = World(sc['world'])                                # this process has not run anything yet
        try:
            w.own, w.shared, state = pickle.loads(data)
        except Exception as e:
            ctx.check(False, 'not-restored', '%s kept by %s cannot be restored: %s: %s' % (kept, [o[0] for o in sc['before']], type(e).__name__, e))
        w.own = {k: v for k, v in w.own.items() if not k.startswith('file')}      # (design files are written again when needed)
        np.random.set_state(state)
    else:
        w = start(sc)
        perform(w, sc['before'], sc['reseed'], sc['mode'] == 'restart')
        c = World(sc['world'])
        try:
            c.own, c.shared = copy.deepcopy((w.own, w.shared))
        except Exception as e:
            ctx.check(False, 'not-copied', '%s cannot be copied: %s: %s' % (sorted(list(w.own) + list(w.shared)), type(e).__name__, e))
        kept = sorted(list(w.own) + list(w.shared))
        SIM.fired('duplication')
        if sc['mode'] == 'copy':
            w, c = c, w
        # c is put to another use first
        state = np.random.get_state()
        perform(c, sc['other'], True)
        if sc['scribble']:
            for x in list(c.own.values()) + list(c.shared.values()):
                overwrite(np, x)
        np.random.set_state(state)
        ctx.probe('other-use')
    got = perform(w, sc['after'], sc['reseed'])
    for i, (o, x, y) in enumerate(zip(sc['after'], then, got)):
        d = O.outcome_diff(x, y)
        ctx.check(d is None, 'continues-differently', lambda: '%s (%s), %s after %s: %s' % (o, sc['mode'], i, [p[0] for p in sc['before']], d))
    d = O.diff(final, objects(w))
    ctx.check(d is None, 'objects-differ', lambda: '%s: objects after %s: %s' % (sc['mode'], [p[0] for p in sc['before'] + sc['after']], d))
    D.cleanup(w.dir)
    ctx.probe(sc['mode'])
    for k in kept:
        ctx.probe('kept-' + k.rstrip('0123456789'))
    ctx.nontrivial = bool(kept)
    ctx.state(sc['mode'], sc['protocol'] if sc['mode'] == 'restart' else 0, [o[:2] for o in sc['before']], [o[:2] for o in sc['after']])
