"""A catalogue of public CommPy operations over a small world of shared objects.

Every operation is decided by (name, argument seed, random seed), so the same operation can be run inside a long history,
inside threads, under faults, and alone in a pristine process (the reference).
"""
import os
import random

from . import convsim as V
from . import ldpcsim as D
from .core import sub_seed
from .seams import SIM, CallbackFault


class World:
    """Lazily built objects; what an object is depends on the world seed and its key only."""

    def __init__(self, seed, shared=None, tag=0, pool=None, layout=None):
        import numpy as np
        self.np = np
        self.seed = seed
        self.shared = {} if shared is None else shared
        self.own = {}
        self.tag = tag
        self.pool = pool            # reused argument buffers, or None
        self.layout = layout        # random.Random choosing argument memory layouts, or None
        self.dir = D.rewrite_cost_dir()
        self.ticks = 0
        self.cbfault = None         # callback number that fails

        r = random.Random(sub_seed(seed, 'focus'))
        self.focus = r.randrange(12) if seed & 1 else None     # odd worlds: operations meet at one object of each kind

    def idx(self, rs, choices):
        """Which shared object an operation uses: an index below `choices`, or one of `choices`."""
        if isinstance(choices, int):
            choices = range(choices)
        i = rs.randint(len(choices))
        return int(choices[i if self.focus is None else self.focus % len(choices)])

    # ---------------------------------------------------------------------------------------- shared objects
    def get(self, kind, i):
        store = self.own if kind in ('siso', 'mimo', 'link', 'file') else self.shared
        key = '%s%d' % (kind, i)
        if key not in store:
            store[key] = getattr(self, 'mk_' + kind)(i, random.Random(sub_seed(self.seed, kind, i)))
        return store[key]

    def mk_trellis(self, i, r):
        np = self.np
        from commpy.channelcoding import Trellis
        if i == 0:
            return Trellis(np.array([2]), np.array([[5, 7]]))
        if i == 1:                                            # systematic recursive, for turbo codes
            return Trellis(np.array([2]), np.array([[1, 7]]), 5, 'rsc')
        if i == 2:
            return Trellis(np.array([1, 1]), np.array([[3, 2, 3], [2, 1, 1]]))
        if i == 3:
            return Trellis(np.array([3]), np.array([[0o15, 0o17]]), polynomial_format='Matlab')
        while True:
            c = V.gen_code(r, max_states=8, ks=(1, 2))
            code = V.Code(c)
            if code.proper():
                return code.trellis(np, __import__('commpy.channelcoding.convcode', fromlist=['x']))

    def mk_modem(self, i, r):
        np = self.np
        from commpy.modulation import Modem, PSKModem, QAMModem
        return [lambda: PSKModem(2), lambda: PSKModem(8), lambda: QAMModem(4), lambda: QAMModem(16),
                lambda: Modem(np.array([1, 1j, -1, -1j]) * 0.7, reorder_as_gray=False), lambda: Modem(np.arange(-3., 4, 2))][i]()

    def mk_interlv(self, i, r):
        from commpy.channelcoding import RandInterlv
        return RandInterlv([8, 16, 40][i], r.randrange(1 << 31))

    def ldpc_file(self, i):
        if i == 3:
            return os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'commpy/channelcoding/designs/ldpc/gallager/96.33.964.txt')
        return self.get('file', i)

    def mk_file(self, i, r):
        path = os.path.join(self.dir, 'd%d-%d' % (self.tag, i))
        with open(path, 'w') as f:
            f.write(D.text_of(D.gen_matrix(r, square_inv=True)))
        return path

    def mk_ldpc(self, i, r):
        from commpy.channelcoding import get_ldpc_code_params
        return get_ldpc_code_params(self.ldpc_file(i))

    def mk_siso(self, i, r):
        from commpy.channels import SISOFlatChannel
        return SISOFlatChannel(0.5, [(1, 0), (1 + 0j, 0), (0.6 + 0j, 0.64), (0, 1)][i])

    def mk_mimo(self, i, r):
        from commpy.channels import MIMOFlatChannel
        c = MIMOFlatChannel(*[(2, 2), (2, 3), (3, 3)][i], noise_std=0.4)
        if i == 0:
            c.expo_corr_rayleigh_fading(1j, -1 + 0j)
        elif i == 2:
            c.uncorr_rayleigh_fading(complex)
        return c

    # ---------------------------------------------------------------------------------------- links
    def tick(self, what):
        self.ticks += 1
        if self.cbfault is not None and self.ticks == self.cbfault:
            self.cbfault = None
            SIM.fired('callback-failure')
            raise CallbackFault('injected in ' + what)

    def mk_link(self, i, r):
        np = self.np
        from fractions import Fraction
        from commpy import channels, links, modulation
        from commpy.channelcoding import conv_encode, ldpc_bp_decode, triang_ldpc_systematic_encode, viterbi_decode
        w = self
        tick = self.tick
        if i == 0:                                            # uncoded QPSK over fading
            modem = self.get('modem', 2)
            ch = channels.SISOFlatChannel(None, (0.6 + 0j, 0.64))

            def rec(y, h, c, nv):
                tick('receive')
                return modem.demodulate(y / h, 'hard')
            return links.LinkModel(modem.modulate, ch, rec, modem.num_bits_symbol, modem.constellation, modem.Es)
        if i == 1:                                            # convolutional code, soft Viterbi
            modem = self.get('modem', 2)
            t = self.get('trellis', 0)
            ch = channels.SISOFlatChannel(None, (1 + 0j, 0))

            def mod(bits):
                tick('modulate')
                return modem.modulate(conv_encode(bits, t, 'cont'))

            def rec(y, h, c, nv):
                tick('receive')
                return modem.demodulate(y, 'soft', nv)

            def dec(msg):
                tick('decode')
                return viterbi_decode(msg, t, decoding_type='soft')
            return links.LinkModel(mod, ch, rec, modem.num_bits_symbol, modem.constellation, modem.Es, dec, Fraction(1, 2))
        if i == 2:                                            # MIMO with K-best detection
            modem = self.get('modem', 3)
            ch = channels.MIMOFlatChannel(2, 2)
            ch.uncorr_rayleigh_fading(complex)

            def rec(y, h, c, nv):
                tick('receive')
                return modem.demodulate(modulation.kbest(y, h, c, 8), 'hard')
            return links.LinkModel(modem.modulate, ch, rec, modem.num_bits_symbol, modem.constellation, modem.Es)
        p = self.get('ldpc', 0)
        nv_, nc = p['n_vnodes'], p['n_cnodes']
        rate = Fraction(nv_ - nc, nv_)
        if i == 3:                                            # LDPC code, min-sum
            modem = self.get('modem', 0)
            ch = channels.SISOFlatChannel(None, (1, 0))

            def mod(bits):
                tick('modulate')
                return modem.modulate(triang_ldpc_systematic_encode(bits, p).reshape(-1, order='F')).real

            def rec(y, h, c, nv):
                tick('receive')
                return 2 * y / nv

            def dec(msg):
                tick('decode')
                d = ldpc_bp_decode(np.array(msg), p, 'MSA', 4)[0]
                return d.reshape(nv_, -1)[:nv_ - nc].reshape(-1, order='F')
            return links.LinkModel(mod, ch, rec, modem.num_bits_symbol, modem.constellation, modem.Es, dec, rate)
        # iterative detection and decoding over 2 x 2 MIMO
        modem = self.get('modem', 2)
        ch = channels.MIMOFlatChannel(2, 2)
        ch.uncorr_rayleigh_fading(complex)

        def detector(y, h, c, nv, a):
            tick('detector')
            return modulation.kbest(y, h, c, 16, nv, 'soft', lambda s: modem.demodulate(s, 'hard')) + 0.1 * a

        def decoder(llrs):
            tick('decoder')
            return 1.5 * np.clip(llrs, -50, 50)

        dec = links.idd_decoder(detector, decoder, lambda l: (l < 0).astype(int), 2)

        def rec(y, h, c, nv):
            tick('receive')
            return modulation.kbest(y, h, c, 16, nv, 'soft', lambda s: modem.demodulate(s, 'hard'))
        return links.LinkModel(modem.modulate, ch, rec, modem.num_bits_symbol, modem.constellation, modem.Es, dec)

    # ---------------------------------------------------------------------------------------- arguments
    def arg(self, a, slot):
        """An argument array: fresh, in a reused buffer, or in another memory layout with the same values."""
        np = self.np
        a = np.asarray(a)
        if self.pool is not None:
            key = (slot, a.shape, str(a.dtype))
            if key in self.pool:
                self.pool[key][...] = a
                SIM.fired('reused-buffer')
                return self.pool[key]
            self.pool[key] = a.copy()
            return self.pool[key]
        if self.layout is not None and a.ndim and a.size:
            how = self.layout.randrange(5)
            if how == 0:
                big = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
                v = big[tuple(slice(None, None, 2) for _ in a.shape)]
                v[...] = a
                SIM.fired('strided-argument')
                return v
            if how == 1:
                v = a[::-1].copy()[::-1]
                SIM.fired('reversed-argument')
                return v
            if how == 2 and a.ndim > 1:
                SIM.fired('fortran-argument')
                return np.asfortranarray(a)
            if how == 3:
                v = a.copy()
                v.flags.writeable = False
                SIM.fired('read-only-argument')
                return v
        return a


# ------------------------------------------------------------------------------------------------------ catalogue
OPS = {}


def op(name, weight=4, config=False, fails=False, shared=True, threads=True):
    def deco(f):
        OPS[name] = {'f': f, 'weight': weight, 'config': config, 'fails': fails, 'threads': threads}
        return f
    return deco


class Call:
    """A prepared operation: fn(*args, **kw), then post(result) -> what is compared."""

    def __init__(self, fn, *args, post=None, objs=(), **kw):
        self.fn, self.args, self.kw, self.post, self.objs = fn, args, kw, post, objs

    def run(self):
        self.res = self.fn(*self.args, **self.kw)
        return self.res

    def value(self):
        return canon(self.post(self.res) if self.post else self.res)


def bits(rs, n, dtypes=('int64', 'int64', 'int8', 'uint8')):
    return rs.randint(0, 2, n).astype(dtypes[rs.randint(len(dtypes))])


def pick(rs, seq):
    return seq[rs.randint(len(seq))]


def crandn(rs, *shape):
    return rs.standard_normal(shape) + 1j * rs.standard_normal(shape)


def CC():
    from commpy import channelcoding
    return channelcoding


def trellis_of(t):
    return {'next': t.next_state_table, 'out': t.output_table, 'k': t.k, 'n': t.n, 'states': t.number_states,
            'inputs': t.number_inputs, 'mem': t.total_memory, 'type': t.code_type}


# convolutional and turbo codes
@op('trellis-new')
def _(w, rs):
    r = random.Random(int(rs.randint(1 << 30)))
    c = V.gen_code(r, max_states=8, ks=(1, 2))                # (in the other notations some polynomials get longer than the memory)
    np = w.np
    g = w.arg(np.array(c['g']), 'g')
    mem = w.arg(np.array(c['mem']), 'm')
    fb = None if c['fb'] is None else w.arg(np.array(c['fb']), 'f')
    return Call(CC().Trellis, mem, g, fb, c['type'], c['fmt'], post=trellis_of)


@op('trellis-legacy', 2)
def _(w, rs):
    np = w.np
    return Call(CC().Trellis, w.arg(np.array([2]), 'm'), w.arg(np.array([[1, pick(rs, [5, 7, 6])]]), 'g'), pick(rs, [5, 7]), 'rsc',
                post=trellis_of)


@op('conv-encode', 8)
def _(w, rs):
    i = w.idx(rs, 6)
    t = w.get('trellis', i)
    kw = {}
    if t.k == 1 and rs.randint(3) == 0:
        p = rs.randint(0, 2, (1, rs.randint(1, 5)))
        p[0, 0] = 1
        kw['puncture_matrix'] = w.arg(p, 'p')
    return Call(CC().conv_encode, w.arg(bits(rs, t.k * rs.randint(1, 14)), 'b'), t, pick(rs, ['cont', 'term']), **kw)


@op('viterbi', 9)
def _(w, rs):
    t = w.get('trellis', w.idx(rs, 6))
    n = t.n * rs.randint(2, 14)
    kind = pick(rs, ['hard', 'soft', 'unquantized'])
    if kind == 'hard':
        y = rs.randint(0, 2, n)
    else:
        y = rs.standard_normal(n) * (10 if kind == 'soft' else 1)
        if rs.randint(5) == 0:
            y = y.astype('float32')
    return Call(CC().viterbi_decode, w.arg(y, 'y'), t, pick(rs, [None, None, 3, 6]), kind)


@op('viterbi-again', 4)
def _(w, rs):
    """A buffer with few distinct codewords: branch-metric caches are hit often."""
    t = w.get('trellis', w.idx(rs, 2))
    y = w.np.tile(rs.choice([0., 1., -1., 2., 0.5], t.n), rs.randint(2, 8))
    kind = pick(rs, ['soft', 'unquantized', 'hard'])
    if kind == 'hard':
        y = (y > 0).astype(int)
    return Call(CC().viterbi_decode, w.arg(y, 'y'), t, None, kind)


@op('puncture', 3)
def _(w, rs):
    from commpy.channelcoding.convcode import puncturing
    v = rs.randint(0, 2, rs.randint(2, 7))
    return Call(puncturing, w.arg(bits(rs, rs.randint(1, 30)), 'b'), pick(rs, [list(map(int, v)), w.arg(v, 'v')]))


@op('depuncture', 3)
def _(w, rs):
    from commpy.channelcoding.convcode import depuncturing
    v = list(map(int, rs.randint(0, 2, rs.randint(2, 7))))
    n = rs.randint(1, 25)
    return Call(depuncturing, w.arg(rs.standard_normal(n + 3), 'y'), v, n)


@op('turbo-encode', 4)
def _(w, rs):
    t = w.get('trellis', 1)
    i = w.idx(rs, 2)
    n = [8, 16][i] - t.total_memory
    return Call(CC().turbo_encode, w.arg(bits(rs, n), 'b'), t, t, w.get('interlv', i))


@op('map', 5)
def _(w, rs):
    t = w.get('trellis', 1)
    n = rs.randint(1, 20)
    return Call(CC().map_decode, w.arg(rs.standard_normal(n), 's'), w.arg(rs.standard_normal(n), 'p'), t, pick(rs, [0.1, 1.0, 3.5]),
                w.arg(rs.standard_normal(n) * pick(rs, [0, 1, 5]), 'L'), pick(rs, ['decode', 'compute']))


@op('turbo-decode', 3)
def _(w, rs):
    t = w.get('trellis', 1)
    i = w.idx(rs, 2)
    n = [8, 16][i]
    L = pick(rs, [None, w.arg(rs.standard_normal(n), 'L')])
    return Call(CC().turbo_decode, w.arg(rs.standard_normal(n), 's'), w.arg(rs.standard_normal(n), 'p1'),
                w.arg(rs.standard_normal(n), 'p2'), t, 0.8, rs.randint(1, 3), w.get('interlv', i), L)


# LDPC
@op('ldpc-load', 3)
def _(w, rs):
    i = w.idx(rs, [0, 1, 2, 0, 1, 2, 3])
    return Call(CC().get_ldpc_code_params, w.ldpc_file(i), bool(rs.randint(2)) and i < 3)


@op('ldpc-rewrite', 4, threads=False)
def _(w, rs):
    """A design written to a path that held another code before."""
    np = w.np
    m = D.gen_matrix(random.Random(int(rs.randint(1 << 30))), square_inv=True)
    a = w.arg(D.to_array(np, m, pick(rs, ['int64', 'int8'])), 'h')
    path = os.path.join(w.dir, 'rw%d' % w.tag)
    cm = bool(rs.randint(2))

    def go(a, path):
        if os.path.exists(path):
            os.unlink(path)
        CC().write_ldpc_params(a, path)
        return CC().get_ldpc_code_params(path, cm)
    return Call(go, a, path)


@op('ldpc-build', 2)
def _(w, rs):
    p = w.get('ldpc', w.idx(rs, 3))
    return Call(CC().build_matrix, p, post=lambda r: p)


@op('ldpc-decode', 8)
def _(w, rs):
    i = w.idx(rs, [0, 1, 2, 0, 1, 2, 0, 1, 2, 3])
    p = w.get('ldpc', i)
    y = rs.standard_normal(p['n_vnodes'] * (rs.randint(1, 4) if i < 3 else 1)) * 3 + 1
    alg = pick(rs, ['SPA', 'MSA']) if i < 3 else 'SPA'
    return Call(CC().ldpc_bp_decode, w.arg(y, 'y'), p, alg, rs.randint(0, 5))


@op('ldpc-encode', 5)
def _(w, rs):
    p = w.get('ldpc', w.idx(rs, 3))
    k = p['n_vnodes'] - p['n_cnodes']
    n = k * rs.randint(1, 4)
    pad = bool(rs.randint(2))
    if pad and rs.randint(2):
        n += rs.randint(1, k + 1)
    return Call(CC().triang_ldpc_systematic_encode, w.arg(bits(rs, n), 'b'), p, pad)


# interleavers
@op('interlv', 4)
def _(w, rs):
    i = w.idx(rs, 3)
    o = w.get('interlv', i)
    a = w.arg(rs.standard_normal([8, 16, 40][i]), 'a')
    return Call(pick(rs, [o.interlv, o.deinterlv]), a, objs=(o,))


@op('interlv-new', 2)
def _(w, rs):
    return Call(CC().RandInterlv, int(rs.randint(1, 60)), int(pick(rs, [0, 1, 42, rs.randint(1 << 30)])), post=lambda o: o.p_array)


# algebra
@op('gf', 3)
def _(w, rs):
    np = w.np
    m = pick(rs, [2, 3, 4])
    GF = CC().GF
    n = rs.randint(1, 6)
    a, b = (GF(w.arg(rs.randint(0, 2 ** m, n), s), m) for s in 'xy')
    nz = GF(w.arg(rs.randint(1, 2 ** m, n), 'z'), m)
    full = GF(np.arange(1, 2 ** m), m)
    return pick(rs, [Call(lambda: (a + b).elements, objs=(a, b)), Call(lambda: (a * b).elements, objs=(a, b)),
                     Call(lambda: nz.tuple_to_power().elements, objs=(nz,)),
                     Call(lambda: nz.order(), objs=(nz,)), Call(lambda: [c.elements for c in full.cosets()]),
                     Call(lambda: nz.minpolys(), objs=(nz,)), Call(lambda: GF(w.np.arange(2 ** m - 1), m).power_to_tuple().elements)])


@op('cyclic', 1)
def _(w, rs):
    n, k = pick(rs, [(7, 4), (7, 3), (15, 11), (15, 7), (3, 1)])
    return Call(CC().cyclic_code_genpoly, n, k)


@op('poly', 1)
def _(w, rs):
    x, y = int(rs.randint(1, 500)), int(rs.randint(2, 40))
    return pick(rs, [Call(CC().polydivide, x, y), Call(CC().poly_to_string, x),
                     Call(CC().polymultiply, x % 16, y % 16, 4, 19)])


# modulation
@op('modem-new', 3)
def _(w, rs):
    from commpy.modulation import Modem, PSKModem, QAMModem
    post = lambda m: (m.constellation, m.Es, m.m, m.num_bits_symbol)
    return pick(rs, [Call(PSKModem, int(pick(rs, [2, 4, 8])), post=post), Call(QAMModem, int(pick(rs, [4, 16])), post=post),
                     Call(Modem, w.arg(crandn(rs, 4), 'c'), bool(rs.randint(2)), post=post),
                     Call(Modem, [complex(x) for x in crandn(rs, 8)], post=post)])


@op('modulate', 7)
def _(w, rs):
    m = w.get('modem', w.idx(rs, 6))
    b = int(m.num_bits_symbol)
    return Call(m.modulate, w.arg(bits(rs, b * rs.randint(1, 12)), 'b'), objs=(m,))


@op('demod-hard', 6)
def _(w, rs):
    m = w.get('modem', w.idx(rs, 6))
    return Call(m.demodulate, w.arg(crandn(rs, rs.randint(1, 12)) * 2, 'y'), 'hard', objs=(m,))


@op('demod-soft', 6)
def _(w, rs):
    m = w.get('modem', w.idx(rs, 6))
    return Call(m.demodulate, w.arg(crandn(rs, rs.randint(1, 7)), 'y'), 'soft', pick(rs, [0.05, 1.0, 4]), objs=(m,))


def _mimo(w, rs, i=None):
    np = w.np
    m = w.get('modem', w.idx(rs, [0, 2, 4]) if i is None else i)
    c = m.constellation
    nt = rs.randint(2, 4)
    h = crandn(rs, nt + rs.randint(2), nt)
    x = np.array(c)[rs.randint(len(c), size=nt)]
    y = h.dot(x) + 0.2 * crandn(rs, h.shape[0])
    return m, c, w.arg(y, 'y'), w.arg(h, 'h')


@op('ml', 3)
def _(w, rs):
    from commpy.modulation import mimo_ml
    m, c, y, h = _mimo(w, rs)
    return Call(mimo_ml, y, h, w.arg(c, 'c'))


@op('kbest', 5)
def _(w, rs):
    from commpy.modulation import kbest
    m, c, y, h = _mimo(w, rs)
    if rs.randint(2):
        return Call(kbest, y, h, w.arg(c, 'c'), int(rs.randint(1, 9)))
    return Call(kbest, y, h, w.arg(c, 'c'), 16, 0.3, 'soft', lambda s: m.demodulate(s, 'hard'), objs=(m,))


@op('best-first', 3)
def _(w, rs):
    from commpy.modulation import best_first_detector
    np = w.np
    m = w.get('modem', 2)
    c = m.constellation
    nt = rs.randint(2, 4)
    h = crandn(rs, nt, nt)
    y = h.dot(np.array(c)[rs.randint(len(c), size=nt)]) + 0.2 * crandn(rs, nt)
    st = [int(x) for x in rs.randint(2, 6, nt - 1)]

    def demode(s):
        w.tick('demode')
        return m.demodulate(s, 'hard')
    return Call(best_first_detector, w.arg(y, 'y'), w.arg(h, 'h'), w.arg(c, 'c'), pick(rs, [tuple(st), st]), 0.3, demode, 10,
                objs=(m,))


@op('max-log', 3)
def _(w, rs):
    from commpy.modulation import max_log_approx
    np = w.np
    m, c, y, h = _mimo(w, rs)
    pts = np.array(c)[rs.randint(len(c), size=(h.shape[1], rs.randint(2, 9)))]

    def demode(s):
        w.tick('demode')
        return m.demodulate(s, 'hard')
    return Call(max_log_approx, y, h, 0.4, w.arg(pts, 'pts'), demode, objs=(m,))


@op('bit-level', 2)
def _(w, rs):
    from commpy.modulation import bit_lvl_repr
    return Call(bit_lvl_repr, w.arg(crandn(rs, 2, 3), 'h'), w.arg(crandn(rs, int(pick(rs, [2, 4]))), 'w'))


@op('ofdm-tx', 3)
def _(w, rs):
    from commpy.modulation import ofdm_tx
    return Call(ofdm_tx, w.arg(crandn(rs, 4, rs.randint(1, 4)), 'x'), pick(rs, [8, 16]), 4, int(rs.randint(0, 5)))


@op('ofdm-rx', 3)
def _(w, rs):
    from commpy.modulation import ofdm_rx
    nfft, cp = int(pick(rs, [8, 16])), int(rs.randint(0, 5))
    return Call(ofdm_rx, w.arg(crandn(rs, (nfft + cp) * rs.randint(1, 4) + rs.randint(3)), 'y'), nfft, 4, cp)


# channels
def _prop(c):
    return lambda y: (y, c.noises, c.channel_gains, c.unnoisy_output)


@op('siso', 5)
def _(w, rs):
    i = w.idx(rs, 4)
    c = w.get('siso', i)
    x = crandn(rs, rs.randint(1, 9))
    if not c.isComplex:
        x = x.real
    return Call(c.propagate, w.arg(x, 'x'), post=_prop(c))


@op('mimo', 5)
def _(w, rs):
    i = w.idx(rs, 3)
    c = w.get('mimo', i)
    x = crandn(rs, rs.randint(1, 9))
    if not c.isComplex:
        x = x.real
    return Call(c.propagate, w.arg(x, 'x'), post=_prop(c))


@op('specular', 1)
def _(w, rs):
    c = w.get('mimo', w.idx(rs, 3))
    return Call(c.specular_compo, *(float(x) for x in rs.rand(4)))


@op('bec', 2)
def _(w, rs):
    from commpy.channels import bec
    return Call(bec, w.arg(bits(rs, rs.randint(1, 30), ('int64', 'int8')), 'b'), pick(rs, [0, 0.3, 1]))


@op('bsc', 2)
def _(w, rs):
    from commpy.channels import bsc
    return Call(bsc, w.arg(bits(rs, rs.randint(1, 30)), 'b'), pick(rs, [0, 0.3, 1]))


@op('awgn', 2)
def _(w, rs):
    from commpy.channels import awgn
    x = crandn(rs, rs.randint(1, 20))
    return Call(awgn, w.arg(pick(rs, [x, x.real]), 'x'), pick(rs, [0, 5.0]), pick(rs, [1.0, 0.5]))


# sequences, filters, impairments, utilities
@op('pn', 3)
def _(w, rs):
    from commpy.sequences import pnsequence
    n = rs.randint(2, 6)
    s, m = bits(rs, n), bits(rs, n)
    if rs.randint(2):
        return Call(pnsequence, n, ''.join(map(str, s)), ''.join(map(str, m)), int(rs.randint(1, 40)))
    return Call(pnsequence, n, w.arg(s, 's'), w.arg(m, 'm'), int(rs.randint(1, 40)))


@op('zc', 2)
def _(w, rs):
    from commpy.sequences import zcsequence
    return Call(zcsequence, int(rs.randint(1, 7)), int(pick(rs, [7, 11, 13])), int(rs.randint(3)))


@op('filters', 3)
def _(w, rs):
    from commpy import filters as F
    n, a = int(rs.randint(1, 30)), pick(rs, [0.25, 0.35, 0.5, 1.0])
    return pick(rs, [Call(F.rcosfilter, n, a, 1, 8), Call(F.rrcosfilter, n, a, 1, 8), Call(F.gaussianfilter, n, a, 1, 8),
                     Call(F.rectfilter, n, 1, 8)])


@op('freq-offset', 2)
def _(w, rs):
    from commpy.impairments import add_frequency_offset
    return Call(add_frequency_offset, w.arg(crandn(rs, rs.randint(1, 20)), 'x'), 1e3, float(rs.standard_normal()) * 50)


@op('utils', 8)
def _(w, rs):
    from commpy import utilities as U
    nb = int(rs.randint(1, 9))
    k = rs.randint(7)
    if k == 0:
        return Call(U.dec2bitarray, int(rs.randint(0, 2 ** nb)), nb)
    if k == 1:
        return Call(U.dec2bitarray, pick(rs, [w.arg(rs.randint(0, 2 ** nb, 5), 'd'), [int(x) for x in rs.randint(0, 2 ** nb, 3)]]), nb)
    if k == 2:
        return Call(U.decimal2bitarray, int(rs.randint(0, 2 ** nb)), nb)
    if k == 3:
        return Call(U.bitarray2dec, w.arg(bits(rs, nb), 'b'))
    if k == 4:
        return Call(U.hamming_dist, w.arg(rs.randint(0, 2, nb), 'a'), w.arg(rs.randint(0, 2, nb), 'b'))
    if k == 5:
        return Call(U.upsample, w.arg(crandn(rs, nb), 'x'), int(rs.randint(1, 5)))
    return pick(rs, [Call(U.signal_power, w.arg(crandn(rs, nb), 'x')),
                     Call(U.euclid_dist, w.arg(rs.standard_normal(nb), 'x'), w.arg(rs.standard_normal(nb), 'y'))])


# links
@op('link', 5)
def _(w, rs):
    i = w.idx(rs, 5)
    l = w.get('link', i)
    rate = [1, 0.5, 1, l.rate, 1][i]
    unit = [2, 4, 8, l.rate.numerator if i == 3 else 1, 4][i]
    snrs = pick(rs, [[-3.0, 12], [30, 40], [2, 5, 8]])
    snrs = pick(rs, [snrs, w.arg(w.np.array(snrs, float), 'snr')])
    send = int(unit * rs.randint(1, 5))
    if rs.randint(2):
        from commpy.links import link_performance
        return pick(rs, [Call(l.link_performance, snrs, 3 * send, int(rs.randint(1, 12)), send, rate, post=lambda r: (r, l.rate)),
                         Call(link_performance, l, snrs, 2 * send, int(rs.randint(1, 8)), send, rate)])
    return Call(l.link_performance_full_metrics, snrs, 2, int(rs.randint(1, 12)), send, rate, int(rs.randint(1, 3)),
                bool(rs.randint(2)), post=lambda r: (r, l.full_simulation_results))


@op('wifi', 1)
def _(w, rs):
    from commpy.wifi80211 import Wifi80211
    wi = Wifi80211(int(pick(rs, [0, 1, 2])))
    from commpy.channels import SISOFlatChannel
    ch = SISOFlatChannel(None, (1 + 0j, 0))
    return Call(wi.link_performance, ch, w.np.array([pick(rs, [3.0, 20.0])]), 1, 5, 6)


@op('visualize', 0.3, threads=False)
def _(w, rs):
    t = w.get('trellis', pick(rs, [0, 1]))
    order = [int(x) for x in rs.permutation(4)]
    path = os.path.join(w.dir, 'plot%d.svg' % w.tag)
    return Call(t.visualize, 2, pick(rs, [order, None]), save_path=path, post=lambda r: None)


# objects that live for one call: whatever the library remembers must not outlive them
SMALL_G = [[5, 7], [7, 5], [6, 7], [7, 6], [5, 6], [3, 7]]


@op('brief-trellis', 4)
def _(w, rs):
    np = w.np
    g = pick(rs, SMALL_G)
    b = w.arg(bits(rs, rs.randint(1, 10)), 'b')
    y = w.arg(rs.standard_normal(2 * rs.randint(2, 10)), 'y')
    pm = w.arg(np.array([[1, rs.randint(2), 1]]), 'p')
    kind = pick(rs, ['soft', 'unquantized'])

    def go(b, y, pm):
        t = CC().Trellis(np.array([2]), np.array([g]))
        return CC().conv_encode(b, t), CC().conv_encode(b, t, puncture_matrix=pm), CC().viterbi_decode(y, t, 4, kind)
    return Call(go, b, y, pm)


@op('brief-turbo', 2)
def _(w, rs):
    np = w.np
    g, seed = pick(rs, SMALL_G[:4]), int(rs.randint(4))
    b = w.arg(bits(rs, 6), 'b')
    y = [w.arg(rs.standard_normal(8), 's%d' % i) for i in range(3)]

    def go(b, y):
        t = CC().Trellis(np.array([2]), np.array([[1, g[0]]]), g[1], 'rsc')
        i = CC().RandInterlv(8, seed)
        return CC().turbo_encode(b, t, t, i), CC().turbo_decode(y[0], y[1], y[2], t, 0.8, 2, i), i.deinterlv(i.interlv(y[0])), i.interlv(y[1])
    return Call(go, b, y)


@op('brief-modem', 4)
def _(w, rs):
    from commpy.modulation import Modem
    np = w.np
    pts = np.array([1, 1j, -1, -1j])[rs.permutation(4)] * pick(rs, [1, 2])
    b = w.arg(bits(rs, 2 * rs.randint(1, 8)), 'b')
    y = w.arg(crandn(rs, rs.randint(1, 8)), 'y')

    def go(b, y):
        m = Modem(pts, reorder_as_gray=False)
        return m.modulate(b), m.demodulate(y, 'hard'), m.demodulate(y, 'soft', 0.5)
    return Call(go, b, y)


@op('brief-ldpc', 3, threads=False)
def _(w, rs):
    np = w.np
    m = D.gen_matrix(random.Random(int(rs.randint(6))), square_inv=True)
    a = w.arg(D.to_array(np, m, 'int8'), 'h')
    path = os.path.join(w.dir, 'br%d' % w.tag)
    b = w.arg(bits(rs, a.shape[1] - a.shape[0]), 'b')
    y = w.arg(rs.standard_normal(a.shape[1]) + 0.7, 'y')
    alg = pick(rs, ['SPA', 'MSA'])

    def go(a, b, y):
        if os.path.exists(path):
            os.unlink(path)
        CC().write_ldpc_params(a, path)
        p = CC().get_ldpc_code_params(path)
        return CC().triang_ldpc_systematic_encode(b, p), CC().ldpc_bp_decode(y, p, alg, 3)
    return Call(go, a, b, y)


@op('brief-channel', 3)
def _(w, rs):
    from commpy.channels import MIMOFlatChannel, SISOFlatChannel
    x = w.arg(crandn(rs, 2 * rs.randint(1, 5)), 'x')
    noise, tx = pick(rs, [0.1, 1.0]), int(pick(rs, [1, 2]))
    mean, t = crandn(rs, 2, tx), pick(rs, [1, -1, 1j])

    def go(x):
        c = MIMOFlatChannel(tx, 2, noise)
        if tx == 2:
            c.expo_corr_rician_fading(mean, 0.5, t, 1, 0.2, 0)
        else:
            c.uncorr_rayleigh_fading(complex)
        s = SISOFlatChannel(noise, (0.6 + 0j, 0.64))
        s.set_SNR_dB(7, 0.5, 2)
        return c.propagate(x), c.channel_gains, c.k_factor, s.propagate(x), s.noise_std
    return Call(go, x)


@op('brief-link', 3)
def _(w, rs):
    from commpy import channels, links, modulation
    np = w.np
    m = modulation.PSKModem(int(pick(rs, [2, 4, 8])))
    snrs = pick(rs, [[0.0, 6.0], [4.0]])
    n = int(rs.randint(2, 9))

    def go():
        ch = channels.SISOFlatChannel(None, (1 + 0j, 0))
        l = links.LinkModel(m.modulate, ch, lambda y, h, c, nv: m.demodulate(y, 'hard'), m.num_bits_symbol, m.constellation, m.Es)
        return l.link_performance(snrs, 12 * n, 4, 6 * n), l.link_performance_full_metrics(snrs, 3, 5, 6 * n)
    return Call(go)


# configuration (changes what later operations return)
@op('cfg-constellation', 1, config=True)
def _(w, rs):
    m = w.get('modem', pick(rs, [4, 5, 1]))
    n = int(pick(rs, [2, 4, 8]))
    v = crandn(rs, n)

    def go(v):
        m.constellation = v
    return Call(go, pick(rs, [v, [complex(x) for x in v]]), post=lambda r: (m.constellation, m.Es, m.m, m.num_bits_symbol))


@op('cfg-siso', 1, config=True)
def _(w, rs):
    c = w.get('siso', rs.randint(4))
    f = pick(rs, [(1, 0), (1j, 0), (0j, 1), (0.6, 0.64)])

    def go(f):
        c.fading_param = f
    return Call(go, f, post=lambda r: (c.isComplex, c.fading_param, c.k_factor if f[1] else None))


@op('cfg-mimo', 2, config=True)
def _(w, rs):
    c = w.get('mimo', rs.randint(3))
    t, r = pick(rs, [1, -1, 1j]), pick(rs, [1, 1j])
    mean = crandn(rs, c.nb_rx, c.nb_tx)
    post = lambda r: (c.isComplex, c.fading_param, c.k_factor)
    return pick(rs, [Call(c.expo_corr_rayleigh_fading, t, r, pick(rs, [0, 0.3]), post=post),
                     Call(c.uncorr_rayleigh_fading, complex, post=post), Call(c.uncorr_rician_fading, mean, 2.0, post=post),
                     Call(c.expo_corr_rician_fading, mean, 0.5, t, r, pick(rs, [0, 0.2]), 0.1, post=post)])


@op('cfg-snr', 2, config=True)
def _(w, rs):
    c = pick(rs, [lambda: w.get('siso', rs.randint(4)), lambda: w.get('mimo', rs.randint(3))])()
    f = pick(rs, [c.set_SNR_dB, c.set_SNR_lin])
    return Call(f, float(rs.randint(1, 20)), pick(rs, [1, 0.5]), pick(rs, [1, 2.0]), post=lambda r: c.noise_std)


# calls that must fail
@op('bad', 4, fails=True)
def _(w, rs):
    np = w.np
    from commpy import channels, modulation, sequences
    cc = CC()
    k = rs.randint(15)
    m = w.get('modem', 2)
    if k == 0:
        return Call(m.demodulate, w.arg(crandn(rs, 3), 'y'), 'medium', objs=(m,))
    if k == 1:
        p = w.get('ldpc', 1)
        y = rs.standard_normal(p['n_vnodes']) * 0.1 + np.tile([1, -1], p['n_vnodes'])[:p['n_vnodes']]
        adj = p['cnode_adj_list'].reshape(p['n_cnodes'], -1)
        if not any((y[[v for v in row if v >= 0]] < 0).sum() % 2 for row in adj):
            y[[v for v in adj[0] if v >= 0][0]] *= -1         # not a codeword, so that the decoder has work to do
        return Call(cc.ldpc_bp_decode, w.arg(y, 'y'), p, 'XYZ', 5)
    if k == 2:
        return Call(sequences.pnsequence, 4, '101', '1010', 5)
    if k == 3:
        return Call(sequences.zcsequence, pick(rs, [0, 7, 1.5]), 7)
    if k == 4:
        return Call(modulation.kbest, w.arg(crandn(rs, 2), 'y'), w.arg(crandn(rs, 2, 3), 'h'), w.arg(m.constellation, 'c'), 4)
    if k == 5:
        return Call(modulation.kbest, w.arg(crandn(rs, 2), 'y'), w.arg(crandn(rs, 2, 2), 'h'), w.arg(m.constellation, 'c'), 4, 1, 'firm')
    if k == 6:
        c = channels.SISOFlatChannel(0.1, (1, 0))
        return Call(c.propagate, w.arg(crandn(rs, 3), 'x'))
    if k == 7:
        p = w.get('ldpc', 2)
        n = p['n_vnodes'] - p['n_cnodes']
        if n == 1:                                            # every length fits
            return Call(cc.cyclic_code_genpoly, 4, 1)
        return Call(cc.triang_ldpc_systematic_encode, w.arg(bits(rs, 2 * n + 1), 'b'), p, False)
    if k == 8:
        def go(v):
            m.constellation = v
        return Call(go, w.arg(crandn(rs, 3), 'c'), objs=(m,))
    if k == 9:
        c = w.get('mimo', 0)
        return Call(c.expo_corr_rayleigh_fading, pick(rs, [1, 2j]), pick(rs, [1j, 0.3]), pick(rs, [-1, 0]), -0.5)
    if k == 10:
        return Call(cc.viterbi_decode, w.arg(rs.randint(0, 2, 8), 'y'), w.get('trellis', 0), None, 'squishy')
    if k == 11:
        return Call(cc.Trellis, np.array([2]), w.arg(np.array([[5, 7]]), 'g'), None, 'default', 'XSB')
    if k == 12:
        return Call(cc.cyclic_code_genpoly, 6, 3)
    if k == 13:
        c = w.get('mimo', 1)

        def go(f):
            c.fading_param = f
        return Call(go, (np.zeros((3, 2)), 5 * np.eye(2), np.eye(3)))
    return Call(modulation.bit_lvl_repr, w.arg(crandn(rs, 2, 2), 'h'), w.arg(crandn(rs, 3), 'w'))


# ------------------------------------------------------------------------------------------------------ scenarios
def gen_ops(r, n, only=None, skip=(), config=True, fails=True, threads=False):
    names = [k for k, v in OPS.items() if (only is None or k in only) and k not in skip and (config or not v['config']) and
             (fails or not v['fails']) and (not threads or v['threads'])]
    weights = [OPS[k]['weight'] for k in names]
    # swarm: a run only uses a subset of the catalogue
    if only is None and r.random() < 0.6:
        k = r.choice([2, 3, 5, 9])
        sub = set()
        while len(sub) < min(k, len(names)):
            sub.add(r.choices(names, weights)[0])
        weights = [w for k2, w in zip(names, weights) if k2 in sub]
        names = [k2 for k2 in names if k2 in sub]
    out = []
    args = [r.randrange(1 << 30) for _ in range(3)]
    for _ in range(n):
        out.append([r.choices(names, weights)[0], r.choice(args) if r.random() < 0.3 else r.randrange(1 << 30), r.randrange(1 << 30)])
    return out


def prepare(w, o):
    return OPS[o[0]]['f'](w, w.np.random.RandomState(o[1]))


def stream_state(np):
    from . import seams
    s = seams.stream(np).get_state()
    return (sub_seed(bytes(s[1])), s[2], s[3], s[4])


def stream(o):
    """Seed the current random stream for an operation."""
    import numpy as np
    from . import seams
    seams.stream(np).seed(o[2] % (1 << 32))


def do(w, o):
    """-> ('ok', value, random stream state) or ('exc', type name); runs in the current process."""
    c = prepare(w, o)
    stream(o)
    try:
        c.run()
    except Exception as e:
        return ('exc', type(e).__name__, str(e)[:200]), c
    return ('ok', c.value(), stream_state(w.np)), c


def alone(seed, config, o, fill=None):
    """Reference: a pristine world, the configuration changes made so far, then the operation."""
    from . import seams
    w = World(seed, tag=9)
    try:
        for c in config:
            do(w, c)
        SIM.alloc = seams.AllocPolicy(fill, 5) if fill else None
        return do(w, o)[0]
    finally:
        SIM.alloc = None
        D.cleanup(w.dir)


def references(seed, ops, fill=None):
    """What every operation gives alone, computed before any of them runs: [('ok', outcome), ...].  Each reference runs in a
    fork of this still pristine process, after the configuration changes that precede it."""
    from .core import isolated
    known, config, out = {}, [], []
    for o in ops:
        o = list(o[:3])
        key = repr((config, o))
        if key not in known:
            known[key] = isolated(alone, seed, config, o, fill)
        assert known[key][0] == 'ok', known[key]
        out.append(known[key][1])
        if OPS[o[0]]['config'] and out[-1][0] == 'ok':
            config = config + [o]
    return out


# ------------------------------------------------------------------------------------------------------ comparison
VOLATILE = {'noises', 'channel_gains', 'unnoisy_output'}


def canon(x, depth=0, objs=False):
    import numpy as np
    import scipy.sparse as sp
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes)):
        return x
    if isinstance(x, np.generic):
        return ('np', str(x.dtype), x.item())
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('oarr', x.shape, [canon(v, depth + 1, objs) for v in x.reshape(-1)])
        return np.array(x, order='C')
    if sp.issparse(x):
        return ('sparse', x.shape, x.toarray())
    if depth > 6:
        return ('deep', type(x).__name__)
    if isinstance(x, dict):
        return {str(k): canon(v, depth + 1, objs) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [canon(v, depth + 1, objs) for v in x])
    if isinstance(x, (set, frozenset)):
        return ('set', sorted(map(repr, x)))
    if callable(x) and not hasattr(x, '__dict__') or type(x).__name__ in ('function', 'method', 'builtin_function_or_method'):
        return ('fn', getattr(x, '__name__', ''))
    if type(x).__module__ == 'fractions':
        return ('fraction', str(x))
    if hasattr(x, '__dict__') and type(x).__module__.startswith('commpy'):
        d = {k: canon(v, depth + 1, objs) for k, v in vars(x).items() if not k.startswith('_')}
        for k in dir(type(x)):
            if not k.startswith('_') and isinstance(getattr(type(x), k), property):
                try:
                    d[k] = canon(getattr(x, k), depth + 1, objs)
                except Exception:
                    d[k] = None
        return ('obj', type(x).__name__, d)
    return ('other', type(x).__name__)


def snapshot_obj(x):
    """Public state of a shared object that no operation may change."""
    c = canon(x)
    if isinstance(c, tuple) and c[0] == 'obj':
        d = dict(c[2])
        for k in VOLATILE:
            d.pop(k, None)
        if c[1] == 'LinkModel':
            for k in ('rate', 'full_simulation_results', 'channel'):
                d.pop(k, None)
        if c[1] == 'Wifi80211':
            d.pop('model', None)
        return ('obj', c[1], d)
    return c


def diff(a, b, path='', rtol=1e-9, more=False):
    """None if equal, else a description.  more=True: b may have further dictionary keys / public attributes."""
    import numpy as np
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray):
            return '%s: array became %r' % (path, type(b).__name__)
        if a.shape != b.shape:
            return '%s: shape %s, expected %s' % (path, b.shape, a.shape)
        if a.dtype != b.dtype:
            return '%s: dtype %s, expected %s' % (path, b.dtype, a.dtype)
        if a.dtype.kind in 'fc':
            fin = np.abs(a[np.isfinite(a)])
            scale = float(fin.max()) if fin.size else 0.0
            if not np.allclose(a, b, rtol=rtol, atol=1e-12 * scale if scale < 1e250 else 0, equal_nan=True):
                bad = ~np.isclose(a, b, rtol=rtol, atol=1e-12 * scale if scale < 1e250 else 0, equal_nan=True)
                i = tuple(int(k) for k in np.argwhere(bad)[0])
                return '%s%s: %r, expected %r (%d of %d differ)' % (path, list(i), b[i].item(), a[i].item(), int(bad.sum()), a.size)
            return None
        if not np.array_equal(a, b):
            i = tuple(int(k) for k in np.argwhere(a != b)[0])
            return '%s%s: %r, expected %r (%d of %d differ)' % (path, list(i), b[i].item() if a.dtype.kind in 'iub' else b[i],
                                                               a[i].item() if a.dtype.kind in 'iub' else a[i], int((a != b).sum()), a.size)
        return None
    if isinstance(a, dict):
        if not isinstance(b, dict):
            return '%s: %r' % (path, type(b).__name__)
        for k in a:
            if k not in b:
                return '%s.%s: missing' % (path, k)
            d = diff(a[k], b[k], '%s.%s' % (path, k), rtol, more)
            if d:
                return d
        if not more and set(b) - set(a):
            return '%s: unexpected %s' % (path, sorted(set(b) - set(a)))
        return None
    if isinstance(a, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return '%s: %d items, expected %d' % (path, len(b) if isinstance(b, (list, tuple)) else -1, len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s/%d' % (path, i), rtol, more)
            if d:
                return d
        return None
    if isinstance(a, (float, complex)) and isinstance(b, (float, complex)):
        if not np.allclose(a, b, rtol=rtol, atol=0, equal_nan=True):
            return '%s: %r, expected %r' % (path, b, a)
        return None
    if type(a) is not type(b) or a != b:
        return '%s: %r, expected %r' % (path, b, a)
    return None


def outcome_diff(ref, got, state=True):
    """ref/got as returned by do()."""
    if ref[0] != got[0]:
        return 'expected %s, got %s' % (ref[:3] if ref[0] == 'exc' else 'a result', got[:3] if got[0] == 'exc' else 'a result')
    if ref[0] == 'exc':
        return None if ref[1] == got[1] else 'fails with %s, expected %s' % (got[1:], ref[1:])
    d = diff(ref[1], got[1])
    if d is None and state and ref[2] != got[2]:
        d = 'another amount of random numbers was drawn'
    return d


def scribble(x, depth=0):
    """A hostile caller overwrites everything it was given back."""
    import numpy as np
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size and x.dtype.kind in 'iufcb':
            x[...] = 1 if x.dtype.kind == 'b' else 77
            SIM.fired('overwritten-result')
    elif isinstance(x, dict) and depth < 4:
        for k in list(x):
            scribble(x[k], depth + 1)
    elif isinstance(x, (list, tuple)) and depth < 4:
        for v in x:
            scribble(v, depth + 1)
        if isinstance(x, list):
            del x[:]
    elif hasattr(x, 'data') and hasattr(x, 'indices') and depth < 4:
        scribble(x.data, depth + 1)
    elif type(x).__module__.startswith('commpy') and depth < 2:
        for k, v in list(vars(x).items()):
            if isinstance(v, (np.ndarray, dict, list)):
                scribble(v, depth + 1)
