"""C31: links assembled from the library's own parts deliver every frame the channel left decodable."""
import os

from .. import convsim as V
from .. import ldpcsim as L
from ..seams import SIM, AllocPolicy
from .c14 import gen_sys, ref_map
from .c15 import reference as ref_bp
from .c16 import gen_const, as_const

SHRINK_LISTS = ('links', 'links.0.faults', 'links.0.snrs', 'links.1.faults', 'faults')
SHRINK_INTS = (('links.0.frames', 1), ('bits', 1))
TIMEOUT = 90.0

PUNCT = [[1, 1, 1, 0], [1, 1, 1, 0, 0, 1], [1, 1, 0, 1], [1, 0, 1, 1, 1, 1], [1, 1, 1, 1, 1, 0]]


def gen(r, tier, index):
    code = r.choice(['none', 'conv', 'conv', 'conv', 'turbo', 'ldpc', 'ldpc'])
    sc = {'code': code, 'bits': r.choice([1, 2, 3, r.randrange(2, 12), r.randrange(4, 40), r.randrange(4, 40)]), 'seed': r.randrange(1 << 30),
          'poison': r.random() < 0.3, 'interleave': r.random() < 0.6, 'iseed': r.randrange(1 << 31)}
    if code == 'conv':
        while True:
            c = V.gen_code(r, max_states=r.choice([4, 8, 8]), ks=(1, 1, 1, 2))
            if V.Code(c).proper() and not (c['type'] == 'rsc' and len(c['g']) > 1):
                break
        sc.update(conv=c, term=r.choice(['term', 'term', 'cont']), kind=r.choice(['hard', 'soft', 'soft', 'unquantized']),
                  pattern=r.choice([None, None] + PUNCT), depth=r.choice([None, None, 'full']), path=r.choice(['encoder', 'alone']))
        sc['bits'] = max(1, sc['bits'])
        if sc['kind'] == 'hard':
            sc['pattern'] = None
    elif code == 'turbo':
        sc.update(conv=gen_sys(r), iters=r.choice([1, 2, 3, 4]), bits=max(1, min(20, sc['bits'])))
    elif code == 'ldpc':
        sc.update(ldpc=L.gen_matrix(r, square_inv=True, big=r.random() < 0.6), alg=r.choice(['SPA', 'MSA']), iters=r.choice([1, 2, 5, 10, 20]),
                  blocks=r.choice([1, 1, 2, 3]))
    kind = r.choice(['psk', 'psk', 'qam', 'qam', 'custom'])
    sc['modem'] = {'kind': kind, 'm': {'psk': r.choice([2, 4, 4, 8, 16]), 'qam': r.choice([4, 4, 16, 64])}.get(kind, 0),
                   'const': gen_const(r, r.choice([2, 4, 8])), 'gray': r.random() < 0.5}
    sc['links'] = []
    for _ in range(r.choice([1, 1, 1, 2])):
        tr = r.choice(['siso', 'siso', 'siso', 'ofdm', 'ofdm', 'mimo', 'mimo', 'mimo'])
        lk = {'transport': tr, 'snrs': [r.choice([3, 6, 10, 15, 20, 30, 60]) for _ in range(r.choice([1, 1, 2]))],
              'frames': r.choice([1, 1, 2, 3]), 'gain': r.choice(['unit', 'phase', 'rayleigh']), 'api': r.choice(['performance', 'performance', 'full', 'function']),
              'soft': r.random() < 0.75}
        if tr == 'ofdm':
            nfft = r.choice([8, 16, 16, 32, 12])
            lk.update(nfft=nfft, nsc=2 * r.randrange(1, (nfft - 1) // 2 + 1), cp=r.choice([0, 1, nfft // 4, nfft // 2]), taps=r.choice([1, 1, 2, 4, 9]))
        elif tr == 'mimo':
            lk.update(ntx=r.choice([1, 2, 2, 3]), more=r.choice([0, 0, 1]), det=r.choice(['linear', 'ml', 'kbest', 'ksoft', 'ksoft', 'best', 'idd', 'idd']),
                      nit=r.choice([1, 2, 3]))
            if kind != 'custom' and sc['modem']['m'] > 4:
                lk['ntx'] = min(lk['ntx'], 2 if sc['modem']['m'] <= 16 else 1)
        lk['faults'] = [[r.randrange(4000), r.choice(['move', 'move', 'flip', 'fade', 'impulse']), r.choice([0.3, 0.7, 0.95, 1.3, 4.0]), r.random()]
                        for _ in range(r.choice([0, 1, 2, 3, 5]))]
        sc['links'].append(lk)
    return sc


class Parts:
    """The library objects of a scenario and the independent description of what they must do."""

    def __init__(self, np, sc, ctx):
        from commpy.modulation import PSKModem, QAMModem, Modem
        from commpy.channelcoding import convcode as cc, turbo, ldpc, interleavers
        self.np, self.sc, self.ctx = np, sc, ctx
        m = sc['modem']
        if m['kind'] == 'psk':
            self.modem = ctx.lib(PSKModem, m['m'])
        elif m['kind'] == 'qam':
            self.modem = ctx.lib(QAMModem, m['m'])
        else:
            self.modem = ctx.lib(Modem, as_const(np, m['const']), m['gray'])
        self.bps = self.modem.num_bits_symbol
        import itertools
        self.labels = np.array(list(itertools.product((0, 1), repeat=self.bps)))
        self.points = np.asarray(ctx.lib(self.modem.modulate, self.labels.reshape(-1)), dtype=complex)
        ctx.check(self.points.shape == (2 ** self.bps,), 'wrong-length', 'modem')
        d = np.abs(self.points[:, None] - self.points[None, :]) + np.where(np.eye(len(self.points)), np.inf, 0)
        ctx.check(d.min() > 0, 'labels-collide', 'two labels share a constellation point')
        self.dmin = d.min()
        self.il_by_len = {}
        self.ilmod = interleavers
        self.cc, self.turbo, self.ldpc = cc, turbo, ldpc
        code = sc['code']
        if code in ('conv', 'turbo'):
            self.code = V.Code(sc['conv'])
            self.trellis = ctx.lib(self.code.trellis, np, cc)
        if code == 'conv':
            self.nbits = max(1, sc['bits'] // self.code.k) * self.code.k
            steps = self.nbits // self.code.k
            if sc['term'] == 'term':
                steps += self.code.total if sc['conv']['type'] == 'rsc' else (self.code.total + self.code.total % self.code.k) // self.code.k
            self.nfull = steps * self.code.n
            p = sc['pattern']
            self.where = [i for i in range(self.nfull) if not p or p[i % len(p)]]
        elif code == 'turbo':
            self.nbits = sc['bits']
            self.nfull = 3 * self.nbits
            self.where = list(range(self.nfull))
            self.til = interleavers.RandInterlv(self.nbits, sc['iseed'] % 1000)
            self.tperm = np.array([int(x) for x in self.til.interlv(np.arange(self.nbits))])
        elif code == 'ldpc':
            d = L.rewrite_cost_dir()
            try:
                path = os.path.join(d, 'code.txt')
                with open(path, 'w') as f:
                    f.write(L.text_of(sc['ldpc']))
                self.par = ctx.lib(ldpc.get_ldpc_code_params, path)
            finally:
                L.cleanup(d)
            self.rows, self.nv = sc['ldpc']['rows'], sc['ldpc']['nv']
            self.k = self.nv - len(self.rows)
            self.nbits = self.k * sc['blocks']
            self.nfull = self.nv * sc['blocks']
            self.where = list(range(self.nfull))
        else:
            self.nbits = self.nfull = sc['bits']
            self.where = list(range(self.nfull))

    # ------------------------------------------------------------- transmit side (library)
    def encode(self, msg):
        np, sc, ctx = self.np, self.sc, self.ctx
        code = sc['code']
        if code == 'none':
            return msg
        if code == 'conv':
            if sc['pattern'] and sc['path'] == 'encoder':
                return ctx.lib(self.cc.conv_encode, msg, self.trellis, sc['term'], np.array([sc['pattern']]))
            out = ctx.lib(self.cc.conv_encode, msg, self.trellis, sc['term'])
            return ctx.lib(self.cc.puncturing, out, np.array(sc['pattern'])) if sc['pattern'] else out
        if code == 'turbo':
            return np.concatenate(ctx.lib(self.turbo.turbo_encode, msg, self.trellis, self.trellis, self.til))
        cw = ctx.lib(self.ldpc.triang_ldpc_systematic_encode, msg, self.par, False)
        return np.asarray(cw).reshape(self.nv, -1).T.reshape(-1)

    def reference_code(self, msg, coded):
        """The code bits this message must have; conv tails that are not unique are taken as sent."""
        np, sc = self.np, self.sc
        msg = [int(b) for b in msg]
        if sc['code'] == 'none':
            return msg
        if sc['code'] == 'conv':
            ref, st = self.code.encode(msg)
            rest = (self.nfull - len(ref)) // self.code.n
            if sc['conv']['type'] == 'rsc':
                for _ in range(rest):                        # the input that shifts a zero in
                    for u in self.code.inputs():
                        s2, o = self.code.step(st, u)
                        if all(h[0] == 0 for h in s2 if h):
                            break
                    ref += o
                    st = s2
            else:
                for _ in range(rest):
                    st, o = self.code.step(st, (0,) * self.code.k)
                    ref += o
            self.end_state = st
            self.ref_full = ref
            return [ref[i] for i in self.where]
        if sc['code'] == 'turbo':
            a, _ = self.code.encode(msg)
            b, _ = self.code.encode([msg[i] for i in self.tperm])
            return msg + a[1::2] + b[1::2]
        coded = [int(b) for b in coded]
        for b in range(sc['blocks']):
            w = coded[b * self.nv:(b + 1) * self.nv]
            if w[:self.k] != msg[b * self.k:(b + 1) * self.k] or any(sum(w[v] for v in row) % 2 for row in self.rows):
                return None
        return coded

    # ------------------------------------------------------------- receive side (library)
    def decode(self, val, hard):
        """val: value of each code bit (bits when hard, L-values positive for 1 otherwise)."""
        np, sc, ctx = self.np, self.sc, self.ctx
        code = sc['code']
        if code == 'none':
            return np.asarray(val) if hard else (np.asarray(val) > 0).astype(int)
        if code == 'conv':
            v = val
            if sc['pattern']:
                v = ctx.lib(self.cc.depuncturing, v, np.array(sc['pattern']), self.nfull)
            depth = None if sc['depth'] is None else self.nfull + 10
            return ctx.lib(self.cc.viterbi_decode, v, self.trellis, depth, 'hard' if hard else sc['kind'])
        if code == 'turbo':
            s = self.soft(val, hard) / 2
            n = self.nbits
            return ctx.lib(self.turbo.turbo_decode, s[:n], s[n:2 * n], s[2 * n:], self.trellis, 1.0, sc['iters'], self.til)
        dec, _ = ctx.lib(self.ldpc.ldpc_bp_decode, -self.soft(val, hard), self.par, sc['alg'], sc['iters'])
        return np.asarray(dec).reshape(self.nv, -1)[:self.k].T.reshape(-1)

    def soft(self, val, hard):
        np = self.np
        return (4.0 * np.asarray(val, dtype=float) - 2) if hard else np.clip(np.asarray(val, dtype=float), -60, 60)

    # ------------------------------------------------------------- oracle
    def decodable(self, val, hard, msg, code_bits):
        """True when these values leave the sent frame ahead of every other one, beyond doubt (independent of the library)."""
        np, sc = self.np, self.sc
        val = np.asarray(val, dtype=float)
        x = 2.0 * np.array(code_bits) - 1
        if sc['code'] == 'none':
            return bool((((2 * val - 1) if hard else val) * x > 1e-6).all())
        if sc['code'] == 'conv':
            full = np.zeros(self.nfull)
            full[self.where] = val
            kind = 'hard' if hard else sc['kind']
            n_steps = V.library_steps(self.code, self.nfull)
            truth = V.true_values(self.code, self.ref_full, self.end_state, n_steps)
            depth = self.nfull + 10 if sc['depth'] is not None else min(5 * self.code.total, self.nfull // self.code.n * self.code.k)
            eff = max(2, min(depth, n_steps + 1))
            v = V.advantage(np, kind, full, truth, self.code.n, n_steps)
            return V.margin(np, self.code, v, self.nbits // self.code.k, eff, n_steps) > 1e-6 * (1 + np.abs(v).max())
        if sc['code'] == 'turbo':
            s = self.soft(val, hard) / 2
            n = self.nbits
            perm, inv = self.tperm, np.argsort(self.tperm)
            L1 = np.zeros(n)
            for _ in range(sc['iters']):
                L2 = (ref_map(np, self.code, s[:n], s[n:2 * n], 1.0, L1) - L1)[perm]
                final = ref_map(np, self.code, s[:n][perm], s[2 * n:], 1.0, L2)
                L1 = (final - L2)[inv]
            final = final[inv]
            return bool((final * x[:n] > 1e-4 * max(1.0, np.abs(final).max())).all())
        llr = -self.soft(val, hard)
        for b in range(sc['blocks']):
            w = llr[b * self.nv:(b + 1) * self.nv]
            want = code_bits[b * self.nv:b * self.nv + self.k]
            for eps in (0.0, 1e-12, -1e-12):
                dec, _, _, amb = ref_bp(np, self.rows, self.nv, w, sc['iters'], sc['alg'], eps)
                if amb or dec[:self.k] != want:
                    return False
        return True

    def ref_llr(self, y, nv):
        """Exact L-values (positive for 1) of symbols y."""
        np = self.np
        met = -np.abs(np.asarray(y).reshape(-1)[:, None] - self.points[None, :]) ** 2 / nv
        out = np.empty((len(met), self.bps))
        for b in range(self.bps):
            one = self.labels[:, b] == 1
            out[:, b] = np.logaddexp.reduce(met[:, one], 1) - np.logaddexp.reduce(met[:, ~one], 1)
        return out.reshape(-1)

    def ref_hard(self, y):
        np = self.np
        d = np.abs(np.asarray(y).reshape(-1)[:, None] - self.points[None, :])
        s = np.sort(d, 1)
        return self.labels[d.argmin(1)].reshape(-1), bool((s[:, 1] - s[:, 0] > 1e-9 * self.dmin).all())


def run(sc, ctx):
    import numpy as np
    if sc['poison']:
        SIM.alloc = AllocPolicy('junk', sc['seed'])
    if not sc['links']:
        return
    np.random.seed(sc['seed'] % (2 ** 32))
    parts = Parts(np, sc, ctx)
    for n, lk in enumerate(sc['links']):
        one(np, sc, lk, ctx, parts, np.random.RandomState((sc['seed'] + 7 * n + 1) % (2 ** 32)))


def one(np, sc, lk, ctx, P, rng):
    import itertools
    from fractions import Fraction
    from commpy.channels import SISOFlatChannel, MIMOFlatChannel
    from commpy.links import LinkModel, link_performance, idd_decoder
    from commpy import modulation as M
    modem, bps = P.modem, P.bps
    tr = lk['transport']
    det = lk.get('det')
    mimo = tr == 'mimo'
    ntx = lk.get('ntx', 1)
    if det == 'best' and ntx < 2:
        det = 'ksoft'
    if mimo and (2 ** bps) ** ntx > 300:
        ntx = 1
        det = 'ksoft' if det == 'best' else det
    nrx = ntx + (lk.get('more', 0) if det != 'best' and det != 'linear' else 0)
    # hard or soft values at the decoder
    if det in ('ml', 'kbest'):
        hard = True
    elif det in ('ksoft', 'best', 'idd'):
        hard = False
    else:
        hard = not lk['soft']
    if sc['code'] == 'conv':
        if det in ('ml', 'kbest') and sc['kind'] != 'hard':
            det = 'ksoft'
            hard = False
        elif det in ('ksoft', 'best', 'idd') and sc['kind'] == 'hard':
            det = 'ml'
            hard = True
        else:
            hard = sc['kind'] == 'hard'
    if det == 'idd' and sc['code'] != 'ldpc':
        det = 'ksoft'
    unit = bps * ntx * (lk['nsc'] if tr == 'ofdm' else 1)
    ncode = len(P.where)
    total = -(-ncode // unit) * unit
    rate = Fraction(P.nbits, total)
    pad = total - ncode
    if total not in P.il_by_len:
        il = P.ilmod.RandInterlv(total, sc['iseed'])
        P.il_by_len[total] = (il, np.array([int(v) for v in il.interlv(np.arange(total))]))
    il, perm = P.il_by_len[total]
    cur = {}

    class Channel(MIMOFlatChannel if mimo else SISOFlatChannel):
        def propagate(self, msg):
            out = (MIMOFlatChannel if mimo else SISOFlatChannel).propagate(self, msg)
            return disturb(self, np.asarray(msg), np.array(out))
    if mimo:
        ch = Channel(ntx, nrx)
        ch.uncorr_rayleigh_fading(complex)
    else:
        ch = Channel()
        ch.fading_param = {'unit': (1 + 0j, 0), 'phase': (np.exp(2.1j), 0), 'rayleigh': (0j, 1)}[lk['gain']]
        if tr == 'ofdm' and lk['gain'] == 'rayleigh':
            ch.fading_param = (1 + 0j, 0)
    echo = np.zeros(1, complex)
    echo[0] = 1
    bins = None
    if tr == 'ofdm':
        t = min(lk['taps'], lk['cp'] + 1)
        echo = (rng.standard_normal(t) + 1j * rng.standard_normal(t)) * 0.5 ** np.arange(t)
        echo[0] += 1.5
        nfft, nsc, cp = lk['nfft'], lk['nsc'], lk['cp']
        bins = np.array(list(range(nfft - nsc // 2, nfft)) + list(range(1, nsc // 2 + 1)))
        hf = np.array([(echo * np.exp(-2j * np.pi * k * np.arange(t) / nfft)).sum() for k in bins])

    # ------------------------------------------------ transmitter
    def modulate(msg):
        msg = np.asarray(msg)
        ctx.check(len(msg) == P.nbits, 'frame-size', 'the link sends %d bits per frame, asked for %d' % (len(msg), P.nbits))
        coded = np.asarray(P.encode(msg))
        ref = P.reference_code(msg, coded)
        ctx.check(ref is not None and [int(b) for b in coded] == list(ref), 'wrong-code-bits', '%s encoder: %s for the message %s, expected %s' % (
            sc['code'], [int(b) for b in coded], msg.tolist(), ref))
        bits = np.concatenate((coded.astype(int), np.zeros(pad, int)))
        if sc['interleave']:
            bits = ctx.lib(il.interlv, bits)
        cur.update(msg=msg.copy(), ref=list(ref), stream=np.asarray(bits).astype(int))
        sym = np.asarray(ctx.lib(modem.modulate, np.asarray(bits)))
        if tr == 'ofdm':
            x = sym.reshape(-1, lk['nsc']).T
            return ctx.lib(M.ofdm_tx, x, lk['nfft'], lk['nsc'], lk['cp'])
        return sym

    # ------------------------------------------------ what a receiver may know, computed independently
    lattice = np.array(list(itertools.product(range(2 ** bps), repeat=ntx))) if mimo else None
    best_ok = {}

    def expected(y, h, nv):
        """(value of every transmitted bit, sure) from the received samples."""
        sure = True
        if tr == 'siso':
            z = y / h
            if hard:
                return P.ref_hard(z)
            return P.ref_llr(z, nv), True
        if tr == 'ofdm':
            z = np.asarray(y / h).reshape(-1, lk['nfft'] + lk['cp'])[:, lk['cp']:]
            z = np.array([[(row * np.exp(-2j * np.pi * k * np.arange(lk['nfft']) / lk['nfft'])).sum() for k in bins] for row in z]) / hf
            # the transmitter spreads with the inverse transform
            if hard:
                return P.ref_hard(z)
            return P.ref_llr(z, nv), True
        vals = []
        for yi, hi in zip(y, h):
            if np.linalg.cond(hi) > 1e4:
                sure = False
            if det == 'linear':
                z = np.linalg.solve(hi, yi)
                if hard:
                    b, s = P.ref_hard(z)
                    sure = sure and s
                else:
                    b = P.ref_llr(z, nv)
                vals.append(b)
                continue
            met = (np.abs(yi[:, None] - hi.dot(P.points[lattice].T)) ** 2).sum(0)
            B = P.labels[lattice].reshape(len(lattice), -1)
            order = np.sort(met)
            if det in ('ml', 'kbest'):
                sure = sure and order[1] - order[0] > 1e-9 * (1 + order[-1])
                vals.append(B[met.argmin()])
                continue
            d = np.array([[met[B[:, k] == v].min() for v in (0, 1)] for k in range(ntx * bps)])
            ll = (d[:, 0] - d[:, 1]) / (2 * nv)
            if det == 'best':                                # common magnitude (known finding): only signs are relied on
                gap = order[1] - order[0]
                ll = np.where(B[met.argmin()] == 1, 1.0, -1.0) * min(gap, 500.0)
                sure = sure and gap > 1e-6
            vals.append(ll)
        return np.concatenate(vals), sure

    def strip(vals):
        """Own de-interleaving and removal of the padding."""
        vals = np.asarray(vals, dtype=float)
        if sc['interleave']:
            out = np.empty(total)
            out[perm] = vals
            vals = out
        return vals[:ncode]

    def disturb(chan, sent, out):
        h = np.asarray(chan.channel_gains)
        nv = chan.noise_std ** 2
        if tr == 'ofdm':
            out = np.convolve(out, echo)[:len(out)]

        def ok(y):
            v, sure = expected(y, h, nv)
            return sure and P.decodable(strip(v), hard, cur['msg'], cur['ref'])
        cur['must'] = ok(out)
        cur['y'] = out
        done = 0
        if cur['must']:
            ctx.probe('decodable')
            for pos, what, strength, ang in lk['faults']:
                y = out.copy()
                flat = y.reshape(-1)
                i = pos % flat.size
                g = float(np.abs(np.asarray(h).reshape(-1)[0])) or 1.0
                e = np.exp(2j * np.pi * ang)
                if what == 'move':
                    flat[i] += strength * P.dmin / 2 * g * e
                elif what == 'flip':
                    flat[i] = -flat[i]
                elif what == 'fade':
                    flat[i] *= 0.2 * strength
                else:
                    flat[i] += 5 * strength * np.abs(P.points).max() * g * e
                if ok(y):
                    out = y
                    done += 1
            ctx.fault('channel-fault', done)
            if done:
                ctx.probe('faults-within-margin')
            v, _ = expected(out, h, nv)
            s = strip(v)
            wrong = int((((2 * s - 1) if hard else s) * (2.0 * np.array(cur['ref']) - 1) <= 0).sum())
            if wrong:
                ctx.probe('code-bits-corrected', wrong)
        else:
            ctx.probe('beyond-margin')
        cur['done'] = done
        cur['y'] = out.copy()
        return out

    # ------------------------------------------------ receiver (library)
    def demode(s):
        return modem.demodulate(np.asarray(s), 'hard')

    def receive(y, h, constellation, nv):
        if tr == 'siso':
            z = y / h
            return ctx.lib(modem.demodulate, z, 'hard') if hard else ctx.lib(modem.demodulate, z, 'soft', nv)
        if tr == 'ofdm':
            z = ctx.lib(M.ofdm_rx, y / h, lk['nfft'], lk['nsc'], lk['cp'])
            z = (z / hf[:, None]).T.reshape(-1)
            return ctx.lib(modem.demodulate, z, 'hard') if hard else ctx.lib(modem.demodulate, z, 'soft', nv)
        if det == 'linear':
            z = np.linalg.solve(h, y)
            return ctx.lib(modem.demodulate, z, 'hard') if hard else ctx.lib(modem.demodulate, z, 'soft', nv)
        if det == 'ml':
            return ctx.lib(modem.demodulate, ctx.lib(M.mimo_ml, y, h, constellation), 'hard')
        if det == 'kbest':
            return ctx.lib(modem.demodulate, ctx.lib(M.kbest, y, h, constellation, len(lattice)), 'hard')
        if det == 'best':
            return -ctx.lib(M.best_first_detector, y, h, constellation, tuple([len(lattice)] * (ntx - 1)), nv, demode, 500.0)
        return -ctx.lib(M.kbest, y, h, constellation, len(lattice), nv, 'soft', demode)

    def finish(vals):
        if sc['interleave']:
            vals = ctx.lib(il.deinterlv, np.asarray(vals))
        return np.asarray(P.decode(np.asarray(vals)[:ncode], hard))

    def judge(bits):
        cur['frames'] = cur.get('frames', 0) + 1
        if cur.get('must'):
            got = [int(b) for b in bits[:P.nbits]]
            ctx.check(got == cur['msg'].tolist(), 'frame-lost', '%s over %s (%s): message %s came back as %s although the %d channel faults leave it decodable' % (
                sc['code'], tr, det or ('hard' if hard else 'soft'), cur['msg'].tolist(), got, cur['done']))
            ctx.probe('delivered')
            ctx.probe('via-%s-%s' % (sc['code'], det or tr))
        else:
            cur['lossy'] = True
        ctx.state(sc['code'], tr, det, hard, cur['msg'].tolist(), cur['done'], bool(cur.get('must')))
        return bits
    if det == 'idd':
        def bp(l):
            v = np.asarray(l)
            d = ctx.lib(il.deinterlv, v) if sc['interleave'] else v
            _, o = ctx.lib(P.ldpc.ldpc_bp_decode, np.clip(d[:ncode], -60, 60), P.par, sc['alg'], sc['iters'])
            o = np.concatenate((np.asarray(o).reshape(P.nv, -1).T.reshape(-1), d[ncode:]))
            return ctx.lib(il.interlv, o) if sc['interleave'] else o

        def detector(y, h, constellation, nv, ap):
            return np.clip(ctx.lib(M.kbest, y, h, constellation, len(lattice), nv, 'soft', demode), -60, 60) + ap

        def decision(l):
            d = ctx.lib(il.deinterlv, np.asarray(l)) if sc['interleave'] else np.asarray(l)
            return (d[:ncode].reshape(-1, P.nv)[:, :P.k].reshape(-1) < 0).astype(int)
        inner = idd_decoder(detector, bp, decision, lk['nit'])

        def decoder(y, h, constellation, noise_var, vals, bits_per_send):
            ctx.check(np.array_equal(y, cur['y']), 'wrong-samples', 'the decoder was not given the received samples')
            return judge(inner(y, h, constellation, noise_var, np.clip(-np.asarray(vals), -60, 60), bits_per_send))
    else:
        def decoder(vals):
            return judge(finish(vals))
    es = float(np.mean(np.abs(P.points) ** 2))
    model = LinkModel(modulate, ch, receive, bps, modem.constellation, es, decoder, rate)
    if tr == 'ofdm':
        # time samples carry the energy of nsc carriers spread over nfft points: the link is configured for it
        model.Es = es
    snrs = [s + (20 if mimo or lk['gain'] == 'rayleigh' else 0) for s in lk['snrs']]
    n = P.nbits * lk['frames']
    if lk['api'] == 'full':
        res = ctx.lib(model.link_performance_full_metrics, snrs, lk['frames'], 0, P.nbits, rate, 1, False)
        bers = np.asarray(res[0])
    elif lk['api'] == 'function':
        bers = np.asarray(ctx.lib(link_performance, model, snrs, n, P.nbits * 10 ** 6, P.nbits, rate))
    else:
        bers = np.asarray(ctx.lib(model.link_performance, snrs, n, P.nbits * 10 ** 6, P.nbits, rate))
    ctx.check(cur.get('frames', 0) >= lk['frames'], 'frames-missing', '%s frames decoded' % cur.get('frames', 0))
    if not cur.get('lossy'):
        ctx.check(not bers.any(), 'errors-reported', 'BER %s although every frame was delivered' % bers.tolist())
    ctx.time('frames', cur.get('frames', 0))
