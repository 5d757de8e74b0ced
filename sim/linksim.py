"""Link-level simulations: real LinkModel, modems and channels; scripted or real receivers and decoders; a history of
everything that crosses the callback boundary; an executable model of the documented Monte-Carlo procedure."""
import functools
import random
from fractions import Fraction

from .core import Violation
from .seams import SIM, SimInterrupt, Tracer

EXCS = {'ValueError': ValueError, 'IndexError': IndexError, 'KeyError': KeyError, 'TypeError': TypeError,
        'StopIteration': StopIteration, 'AssertionError': AssertionError, 'ZeroDivisionError': ZeroDivisionError,
        'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'OSError': OSError,
        'RuntimeError': RuntimeError, 'FloatingPointError': FloatingPointError, 'AttributeError': AttributeError}

RATES = [(1, 1), (1, 1), (1, 2), (1, 3), (2, 3), (3, 4), (5, 6), (4, 5), (7, 8)]


# ------------------------------------------------------------------------------------------------ scenario parts
FORMS = ('function', 'method', 'object', 'partial', 'lambda')


def as_form(f, form, nargs):
    """The same callback as another kind of callable."""
    if f is None or form in (None, 'function'):
        return f
    if nargs == 1:
        class Held:
            def call(self, a):
                return f(a)

            def __call__(self, a):
                return f(a)

        def extra(a, tag):
            return f(a)
        plain = lambda a: f(a)
    else:
        class Held:
            def call(self, a, b, c, d, e, g):
                return f(a, b, c, d, e, g)

            def __call__(self, a, b, c, d, e, g):
                return f(a, b, c, d, e, g)

        def extra(a, b, c, d, e, g, tag):
            return f(a, b, c, d, e, g)
        plain = lambda a, b, c, d, e, g: f(a, b, c, d, e, g)
    return {'method': Held().call, 'object': Held(), 'partial': functools.partial(extra, tag=1), 'lambda': plain}[form]


def gen_link(r, decoders=('none', 'one', 'full'), real=0.35):
    kind = r.choice(['siso', 'siso', 'mimo', 'mimo'])
    modem = r.choice([['psk', 2], ['psk', 4], ['psk', 8], ['psk', 16], ['qam', 4], ['qam', 16], ['custom', 8], ['pam', 4],
                      ['pam', 2]])
    rate = r.choice(RATES) if r.random() < 0.96 else r.choice([(37, 100), (1, 100), (99, 100)])
    link = {'kind': kind, 'modem': modem, 'complex': modem[0] != 'pam' or r.random() < 0.3,
            'ntx': 1, 'nrx': 1, 'fading': r.choice(['none', 'rayleigh', 'rician']),
            'rate': list(rate), 'rate_form': r.choice(['fraction', 'float']) if rate != (1, 1) else
            r.choice(['int', 'fraction', 'float', 'default']),
            'es': r.choice([None, None, 1, 2.5, 0.3]), 'decoder': r.choice(list(decoders)),
            'rx': 'hard' if r.random() < real else 'scripted', 'form': r.choice(FORMS)}
    if kind == 'mimo':
        link['ntx'] = r.choice([1, 2, 2, 3, 4])
        link['nrx'] = link['ntx'] + r.choice([0, 0, 1, 2])
        if link['rx'] == 'hard' and modem[1] ** link['ntx'] > 4096:
            link['rx'] = 'scripted'
    if link['rx'] == 'hard' and (rate != (1, 1) and link['decoder'] != 'none'):
        link['rx'] = 'hard'
    return link


def unit_of(link):
    """Smallest number of message bits filling whole symbol vectors (independent search)."""
    num, den = link['rate']
    b = link['ntx'] * bits_of(link)
    d = 1
    while True:
        if (d * den) % (num * b) == 0:
            return d
        d += 1


def bits_of(link):
    m = link['modem'][1]
    b = 0
    while 1 << b < m:
        b += 1
    return b


def frame_of(link, send_chunk, err_min):
    want = err_min if send_chunk is None else send_chunk
    u = unit_of(link)
    return max(u, want // u * u)


def gen_sim(r, link, api, max_bits=2400):
    u = unit_of(link)
    if r.random() < 0.3:
        send_chunk = None
        err_min = r.choice([1, 2, 3, r.randrange(1, 4 * u + 2)])
    else:
        send_chunk = r.choice([1, u - 1 or 1, u, u + 1, r.randrange(1, 6 * u + 2)])
        err_min = r.choice([1, 2, 3, 5, r.randrange(1, 20), r.randrange(1, 60)])
    large = r.random() < 0.08 and (link['kind'] == 'siso' or link['rx'] != 'hard')
    if large:                                                 # counts beyond one byte
        send_chunk = r.choice([260, 300, 512, r.randrange(256, 700)])
        err_min = r.choice([1, 100, 255, 256, 257, 300, r.randrange(200, 900)])
        max_bits *= 2
    vast = r.random() < 0.03 and max_bits > 1000 and link['kind'] == 'siso' and link['rx'] != 'hard'
    if vast:                                                  # counts beyond two bytes
        large = True
        send_chunk = r.choice([17000, 20000, 32000, 33000, 40000, 65536, 66000])
        err_min = r.choice([1, 30000, 32768, 40000, 65536])
        max_bits = 70000
    frame = frame_of(link, send_chunk, err_min)
    nfr = r.randrange(1, 9)
    while frame * nfr > max_bits and nfr > 1:
        nfr -= 1
    nsnr = r.choice([1, 2, 2, 3, 4]) if not vast else 1
    pool = [-10.0, -5.0, -3.5, 0.0, 1.0, 2.0, 4.5, 6.0, 8.0, 10.0, 15.0, 20.0, 30.0]
    snrs = r.sample(pool, nsnr)
    form = r.choice(['list', 'array', 'array', 'tuple', 'intarray'])
    if form == 'intarray':
        snrs = r.sample([-4, -1, 0, 2, 3, 5, 7, 9, 12, 25], nsnr)
    if r.random() < 0.6:
        snrs = sorted(snrs)
    sim = {'api': api, 'snrs': snrs, 'snr_form': form, 'err_min': err_min, 'send_chunk': send_chunk,
           'send_max': max(1, frame * nfr + r.choice([0, 0, 0, -1, 1, r.randrange(0, frame)]))}
    if api == 'full':
        sim['tx_max'] = r.randrange(1, 7)
        sim['chunks'] = r.choice([1, 1, 2, 3, 4])
        if not large and max_bits > 1000 and (link['kind'] == 'siso' or link['rx'] != 'hard') and u <= 30 and r.random() < 0.03:
            sim['send_chunk'] = send_chunk = r.choice([1, u])      # very many chunks
            sim['chunks'] = r.choice([255, 256, 257, 300])
            large = True
            frame = frame_of(link, send_chunk, err_min)
            max_bits = 9000
        while frame * sim['chunks'] * sim['tx_max'] > max_bits and sim['tx_max'] > 1:
            sim['tx_max'] -= 1
        sim['stop'] = r.choice([True, True, False, None])
        del sim['send_max']
    # per-transmission decoder faults: number of wrong bits in each chunk
    plan = []
    style = r.choice(['heavy', 'heavy', 'heavy', 'mixed'] if vast else ['mixed', 'heavy'] if large else ['mixed', 'mixed', 'rare', 'heavy', 'exact'])
    for t in range(r.choice([1, 3, 8, 24])):
        ch = []
        for _ in range(sim.get('chunks', 1)):
            if style == 'mixed':
                n = r.choice([0, 0, 1, 2, r.randrange(0, frame + 1)])
            elif style == 'rare':
                n = int(r.random() < 0.15)
            elif style == 'heavy':
                n = r.choice([frame, frame - 1 or 1, (frame + 1) // 2])
            else:
                n = min(frame, r.choice([err_min, err_min - 1, err_min + 1, 1, 0]))
            ch.append(n)
        plan.append(ch)
    sim['plan'] = plan
    sim['dtype'] = r.choice(['int64', 'int64', 'int8', 'bool', 'float64', 'uint8'])
    sim['extra'] = r.choice([0, 0, 0, 1, 7])
    sim['seed'] = r.randrange(1 << 30)
    return sim


def code_rate(link):
    num, den = link['rate']
    f = link['rate_form']
    if f == 'int':
        return 1
    if f == 'float':
        return num / den
    return Fraction(num, den)


# ------------------------------------------------------------------------------------------------ the recorder
class Recorder:
    """Builds the link model of a scenario and records every callback."""

    def __init__(self, link):
        import numpy as np
        from commpy import channels, links, modulation
        self.np = np
        self.link = link
        kind, m = link['modem']
        if kind == 'psk':
            self.modem = modulation.PSKModem(m)
        elif kind == 'qam':
            self.modem = modulation.QAMModem(m)
        elif kind == 'pam':
            self.modem = modulation.Modem(np.arange(-(m - 1), m, 2) / 1.5)
        else:
            self.modem = modulation.Modem(np.array([1, 1j, -1, -1j, 2, 2j, -2, -2j]) * 0.7)
        one = 1 + 0j if link['complex'] else 1
        if link['kind'] == 'siso':
            fad = {'none': (one, 0), 'rayleigh': (one * 0, 1), 'rician': (one * 0.6, 0.64)}[link['fading']]
            self.channel = channels.SISOFlatChannel(None, fad)
        else:
            self.channel = channels.MIMOFlatChannel(link['ntx'], link['nrx'])
            self.channel.uncorr_rayleigh_fading(complex if link['complex'] else float)
            if link['fading'] == 'rician':
                mean = np.ones((link['nrx'], link['ntx']), complex if link['complex'] else float)
                self.channel.uncorr_rician_fading(mean, 2.0)
        self.hist = []
        self.cbs = 0               # callbacks so far (fault injection point)
        self.fault = None          # (n, exception)
        self.sim = None
        self._prop = self.channel.propagate
        self.channel.propagate = self.propagate
        dec = {'none': None, 'one': self._mk_one(), 'full': self._mk_full()}[link['decoder']]
        dec = as_form(dec, link.get('form'), 1 if link['decoder'] == 'one' else 6)
        kw = {}
        if link['es'] is not None:
            kw['Es'] = link['es']
        if link['rate_form'] != 'default':
            kw['rate'] = code_rate(link)
        self.model = links.LinkModel(self.modulate, self.channel, self._mk_receive(), self.modem.num_bits_symbol,
                                     self.modem.constellation, decoder=dec, **kw)
        self.links = links

    # fault injection: the n-th callback raises
    def _tick(self, what):
        self.cbs += 1
        if self.fault is not None and self.cbs == self.fault[0]:
            SIM.fired('callback-failure')
            exc = self.fault[1]
            self.fault = None
            raise exc

    def start(self, sim):
        self.sim = sim
        self.hist = []
        self.cbs = 0
        self.tx = -1

    def cur(self):
        if not self.hist:
            raise Violation('no-message', 'the receiver or decoder is called before anything was sent')
        return self.hist[-1]

    def modulate(self, msg):
        self._tick('modulate')
        np = self.np
        self.tx += 1
        msg = np.array(msg)
        num, den = self.link['rate']
        ncoded = -(-len(msg) * den // num)
        coded = np.zeros(ncoded, int)
        coded[:len(msg)] = msg
        if len(msg):
            coded[len(msg):] = msg[np.arange(ncoded - len(msg)) % len(msg)]
        self.hist.append({'msg': msg, 'ncoded': ncoded, 'coded': coded, 'rx': [], 'dec': None, 'out': None})
        b = self.modem.num_bits_symbol * self.link['ntx']
        if len(msg) == 0 or (len(msg) * den) % num or ncoded % b:
            raise Violation('frame-not-filling', '%d message bits at rate %s do not fill whole symbol vectors of %d bits'
                            % (len(msg), self.link['rate'], b))
        return self.modem.modulate(coded)

    def propagate(self, symbs):
        self._tick('channel')
        np = self.np
        out = self._prop(symbs)
        e = self.cur()
        e['symbs'] = np.array(symbs)
        e['out'] = np.array(out)
        e['gains'] = np.array(self.channel.channel_gains)
        e['std'] = self.channel.noise_std
        e['out_obj'] = out
        return out

    def faulty_bits(self):
        """The sent message with this transmission's scripted errors."""
        np = self.np
        e = self.cur()
        if 'faulty' in e:
            return e['faulty']
        bits = e['msg'].astype(int).copy()
        plan = self.sim['plan']
        counts = plan[self.tx % len(plan)] if plan else [0]
        nch = self.sim.get('chunks', 1) or 1
        size = max(1, len(bits) // nch)
        rr = random.Random(self.sim['seed'] * 1009 + self.tx)
        for c in range(nch):
            n = min(size, counts[c % len(counts)])
            for p in rr.sample(range(size), n):
                if c * size + p < len(bits):
                    bits[c * size + p] ^= 1
        nbad = int((bits != e['msg']).sum())
        if nbad:
            SIM.fired('decoder-bit-errors', nbad)
        e['faulty'] = bits
        return bits

    def finish_bits(self, bits):
        np = self.np
        if self.sim['extra']:
            bits = np.concatenate((bits, np.ones(self.sim['extra'], int)))
        out = bits.astype(self.sim['dtype'])
        self.cur()['dec_ret'] = np.array(out)
        return out

    def _mk_receive(self):
        def receive(y, h, constellation, noise_var):
            self._tick('receive')
            np = self.np
            e = self.cur()
            b = self.modem.num_bits_symbol
            n = len(e['rx'])
            call = {'y': np.array(y), 'h': np.array(h), 'const': np.array(constellation), 'nv': noise_var}
            if self.link['rx'] == 'hard':
                if self.link['kind'] == 'siso':
                    ret = self.modem.demodulate(y / h if self.link['fading'] != 'none' else y, 'hard')
                else:
                    from commpy.modulation import mimo_ml
                    ret = self.modem.demodulate(mimo_ml(y, h, constellation), 'hard')
            elif self.link['decoder'] == 'none':
                full = e['coded'].copy()
                fb = self.faulty_bits()
                full[:len(fb)] = fb
                ret = full if self.link['kind'] == 'siso' else full[n * b * self.link['ntx']:(n + 1) * b * self.link['ntx']]
                ret = ret.astype(float) if self.sim['dtype'] == 'float64' else ret
            else:
                width = e['ncoded'] if self.link['kind'] == 'siso' else b * self.link['ntx']
                base = 1000.0 * (self.tx + 1) + 37 * n
                ret = base + np.arange(width) * 0.125
            call['ret'] = np.array(ret)
            e['rx'].append(call)
            return ret
        return receive

    def _decide(self, received):
        np = self.np
        e = self.cur()
        if self.link['rx'] == 'hard':
            bits = np.array(received).astype(int)[:len(e['msg'])]
            return self.finish_bits(bits)
        return self.finish_bits(self.faulty_bits())

    def _mk_one(self):
        def decoder(msg):
            self._tick('decode')
            e = self.cur()
            e['dec'] = {'msg': self.np.array(msg)}
            return self._decide(msg)
        return decoder

    def _mk_full(self):
        def decoder(y, h, constellation, noise_var, msg, bits_per_send):
            self._tick('decode')
            np = self.np
            e = self.cur()
            e['dec'] = {'msg': np.array(msg), 'y': np.array(y), 'h': np.array(h), 'const': np.array(constellation),
                        'nv': noise_var, 'bps': bits_per_send}
            return self._decide(msg)
        return decoder

    # run one simulation of the scenario
    def run(self, sim, seed=None):
        np = self.np
        self.start(sim)
        snrs = sim['snrs']
        form = sim['snr_form']
        if form in ('array', 'intarray'):
            snrs = np.array(snrs)
        elif form == 'tuple':
            snrs = tuple(snrs)
        if seed is not None:
            np.random.seed(seed)
        kw = {}
        if self.link['rate_form'] != 'default':
            kw['code_rate'] = code_rate(self.link)
        if sim['send_chunk'] is not None:
            kw['send_chunk'] = sim['send_chunk']
        if sim['api'] == 'func':
            return self.links.link_performance(self.model, snrs, sim['send_max'], sim['err_min'], **kw)
        if sim['api'] == 'method':
            return self.model.link_performance(snrs, sim['send_max'], sim['err_min'], **kw)
        if sim['stop'] is not None:
            kw['stop_on_surpass_error'] = sim['stop']
        if sim['chunks'] != 1:
            kw['number_chunks_per_send'] = sim['chunks']
        return self.model.link_performance_full_metrics(snrs, sim['tx_max'], sim['err_min'], **kw)


# ------------------------------------------------------------------------------------------------ checks
def expected_std(link, snr):
    es = 1 if link['es'] is None else link['es']
    num, den = link['rate']
    return ((2 if link['complex'] else 1) * link['ntx'] * es * den / (num * 10 ** (snr / 10.0))) ** 0.5


def snr_index(link, sim, e):
    for i, s in enumerate(sim['snrs']):
        if abs(e['std'] - expected_std(link, s)) <= 1e-9 * expected_std(link, s):
            return i
    return None


def same(np, a, b):
    a = np.asarray(a)
    b = np.asarray(b)
    return a.shape == b.shape and (a == b).all()


def decoded_of(rec, e):
    """Bits the decoder (or the receiver when there is no decoder) came back with."""
    np = rec.np
    if rec.link['decoder'] == 'none':
        if rec.link['kind'] == 'siso':
            got = e['rx'][0]['ret']
        else:
            got = np.concatenate([c['ret'] for c in sorted(e['rx'], key=lambda c: c['i'])])
    else:
        got = e['dec_ret']
    return np.asarray(got)[:len(e['msg'])].astype(int)


def check_pairing(rec, ctx):
    """Receiver and decoder see the data of the very transmission being decoded."""
    np = rec.np
    link = rec.link
    const = np.array(rec.modem.constellation)
    for t, e in enumerate(rec.hist):
        ctx.check(e['out'] is not None, 'not-propagated', 'transmission %d was never propagated' % t)
        nv = e['std'] ** 2
        if link['kind'] == 'siso':
            ctx.check(len(e['rx']) == 1, 'receive-count', '%d receiver calls for one SISO transmission' % len(e['rx']))
            c = e['rx'][0]
            c['i'] = 0
            ctx.check(same(np, c['y'], e['out']), 'receive-symbols', 'receiver got other symbols, transmission %d' % t)
            ctx.check(same(np, c['h'], e['gains']), 'receive-gains', 'receiver got other channel gains, transmission %d' % t)
        else:
            nvec = e['out'].shape[0]
            ctx.check(len(e['rx']) == nvec, 'receive-count', '%d receiver calls for %d symbol vectors' % (len(e['rx']), nvec))
            free = list(range(nvec))                          # the vectors may be received in any order
            for c in e['rx']:
                hit = next((i for i in free if same(np, c['y'], e['out'][i]) and same(np, c['h'], e['gains'][i])), None)
                ctx.check(hit is not None, 'receive-vector', 'a receiver call got symbols/gains matching no pending vector of '
                          'transmission %d' % t)
                c['i'] = hit
                free.remove(hit)
        for c in e['rx']:
            ctx.check(same(np, c['const'], const), 'receive-constellation', 'receiver got another constellation')
            ctx.check(abs(c['nv'] - nv) <= 1e-9 * nv, 'receive-noise', 'receiver got noise variance %r, channel had %r' % (
                c['nv'], nv))
        assembled = np.concatenate([np.asarray(c['ret'], float) for c in sorted(e['rx'], key=lambda c: c['i'])])
        if link['decoder'] != 'none':
            d = e['dec']
            ctx.check(d is not None, 'not-decoded', 'transmission %d was not decoded' % t)
            ctx.check(same(np, np.asarray(d['msg'], float), assembled), 'decoder-input',
                      'decoder input differs from what the receiver returned, transmission %d' % t)
            if link['decoder'] == 'full':
                ctx.check(same(np, d['y'], e['out']) and same(np, d['h'], e['gains']) and same(np, d['const'], const) and
                          abs(d['nv'] - nv) <= 1e-9 * nv and d['bps'] == link['ntx'] * bits_of(link),
                          'decoder-context', 'decoder got symbols, gains, constellation, noise variance or size of another '
                          'transmission (%d)' % t)
        ctx.time('symbol_periods', e['out'].shape[0])


def group(rec, ctx, sim, kind='wrong-snr'):
    groups = [[] for _ in sim['snrs']]
    for t, e in enumerate(rec.hist):
        i = snr_index(rec.link, sim, e)
        ctx.check(i is not None, kind, 'transmission %d ran at noise deviation %r; requested SNRs %r give %r' % (
            t, e['std'], sim['snrs'], [expected_std(rec.link, s) for s in sim['snrs']]))
        groups[i].append(e)
    return groups


def errors_of(rec, e):
    return int((decoded_of(rec, e) != e['msg']).sum())
