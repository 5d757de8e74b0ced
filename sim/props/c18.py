"""C18: flat channels over configuration histories; moments measured exactly by feeding unit normal draws."""
from .. import seams
from ..seams import SIM, AllocPolicy, DrawPolicy

SHRINK_LISTS = ('ops',)


class ScriptedNormals:
    """A random stream whose scalar normal draws are all zero, except number `hot`."""

    def __init__(self, np, hot=None):
        self.np = np
        self.hot = hot
        self.n = 0
        self.other = False

    def standard_normal(self, size=None):
        k = 1 if size is None else int(self.np.prod(size))
        out = self.np.zeros(k)
        if self.hot is not None and self.n <= self.hot < self.n + k:
            out[self.hot - self.n] = 1.0
        self.n += k
        return float(out[0]) if size is None else out.reshape(size)

    def randn(self, *dims):
        return self.standard_normal(dims if dims else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def __getattr__(self, name):
        self.other = True
        raise RuntimeError('unscripted draw ' + name)


def gen_ops(r, mimo):
    ops = []
    for _ in range(r.choice([2, 4, 6, 9])):
        x = r.random()
        if x < 0.30:
            ops.append(['send', r.randrange(1, 14), r.choice(['same', 'same', 'same', 'real', 'complex', 'int', 'complex64'])])
        elif x < 0.45:
            ops.append([r.choice(['snr_db', 'snr_lin']), r.choice([-3.0, 0.0, 7.5, 20.0, 60.0]), r.choice([1.0, 0.5, 0.75, 1 / 3]), r.choice([1, 2.0, 10.0, 0.25])])
        elif x < 0.52:
            ops.append(['std', r.choice([0.0, 0.3, 1.0, 12.0])])
        elif x < 0.60:
            ops.append(['unset'])
        elif x < 0.85:
            t, u = r.random(), r.random()
            if mimo:
                ops.append(['fade', r.choice(['rayleigh', 'rayleigh-c', 'expo', 'expo', 'rician', 'rician-c', 'exporice', 'exporice-c', 'direct', 'direct-c']),
                            r.choice([0.0, 1.0, 0.5, t]), r.choice([0.0, 1.0, 0.5, u]), r.choice([0, 0, 0.3, 2.0]), r.choice([0, 0, 0.7, 5.0]),
                            r.choice([0.1, 1.0, 4.0, 50.0]), r.randrange(1 << 30), r.choice(['float', 'int', 'complex'])])
            else:
                ops.append(['fade', r.choice([0.0, 1.0, 0.5, t]), r.choice(['real', 'complex', 'complex', 'npcomplex', 'float']), u])
        else:
            ops.append(['reject', r.choice(['energy', 'energy', 't', 'r', 'betat', 'betar', 'nan']), r.randrange(1 << 30), r.choice(['rayleigh', 'rician'])])
    return ops


def gen(r, tier, index):
    mimo = r.random() < 0.7
    return {'mimo': mimo, 'ntx': r.choice([1, 2, 2, 3, 4]) if mimo else 1, 'nrx': r.choice([1, 2, 2, 3, 4]) if mimo else 1,
            'ops': gen_ops(r, mimo), 'init_std': r.choice([None, None, 0.5]), 'seed': r.randrange(1 << 30), 'poison': r.random() < 0.4,
            'edge': r.choice([0, 0, 0.1])}


def unit(np, a, kind):
    """|t| = 1 as the requested type (a in [0, 1] is the angle over 2 pi)."""
    if kind == 'int':
        return 1 if a < 0.5 else -1
    if kind == 'float':
        return 1.0 if a < 0.5 else -1.0
    return complex(np.exp(2j * np.pi * a))


def run(sc, ctx):
    import numpy as np
    from commpy.channels import SISOFlatChannel, MIMOFlatChannel
    rng = np.random.RandomState(sc['seed'] % (2 ** 32))
    if sc['poison']:
        SIM.alloc = AllocPolicy('junk', sc['seed'])
    if sc['edge']:
        SIM.draws = DrawPolicy(sc['seed'], normal_edge_rate=sc['edge'])
    ntx, nrx, mimo = sc['ntx'], sc['nrx'], sc['mimo']
    if mimo:
        ch = ctx.lib(MIMOFlatChannel, ntx, nrx, sc['init_std'])
        mean, Rt, Rr, cplx = np.zeros((nrx, ntx)), np.eye(ntx), np.eye(nrx), False
    else:
        ch = ctx.lib(SISOFlatChannel, sc['init_std'])
        mean, var, cplx = 1.0, 0.0, False
    std = sc['init_std']
    sent = [0]

    def snapshot():
        f = ch.fading_param
        return ([np.array(x, copy=True) for x in f], [np.asarray(x).dtype for x in f], ch.noise_std, ch.isComplex, ch.nb_tx, ch.nb_rx,
                [None if a is None else np.array(a, copy=True) for a in (ch.noises, ch.channel_gains, ch.unnoisy_output)])

    def same(a, b):
        if a[1:6] != b[1:6]:
            return False
        if not all(np.array_equal(x, y) for x, y in zip(a[0], b[0])):
            return False
        return all((x is None) == (y is None) and (x is None or (x.dtype == y.dtype and np.array_equal(x, y))) for x, y in zip(a[6], b[6]))

    def refused(exc, fn, what, *args):
        before = snapshot()
        try:
            fn(*args)
        except exc:
            pass
        except Exception as e:
            ctx.check(False, 'wrong-error', '%s raised %s: %s' % (what, type(e).__name__, e))
        else:
            ctx.check(False, 'accepted', '%s was accepted' % what)
        ctx.fault('refused-operation')
        ctx.check(same(before, snapshot()), 'refusal-changed-state', '%s was refused but changed the channel' % what)
        ctx.probe('refused-' + what.split(' ')[0])

    def config():
        ctx.check(bool(ch.isComplex) == cplx, 'wrong-type', 'isComplex=%r' % ch.isComplex)
        ctx.check(ch.nb_tx == ntx and ch.nb_rx == nrx, 'wrong-antennas', '%r x %r' % (ch.nb_tx, ch.nb_rx))
        ctx.check((ch.noise_std is None) == (std is None) and (std is None or abs(ch.noise_std - std) <= 1e-9 * (1e-300 + abs(std))),
                  'wrong-noise-std', 'noise_std=%r, expected %r' % (ch.noise_std, std))
        if mimo:
            for name, a, b in zip(('mean', 'transmit correlation', 'receive correlation'), ch.fading_param, (mean, Rt, Rr)):
                ctx.check(np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-12), 'wrong-fading', '%s is %s, expected %s' % (name, a, b))
            los, nlos = (np.abs(mean) ** 2).sum(), (np.trace(Rt) * np.trace(Rr)).real
        else:
            ctx.check(np.allclose(ch.fading_param, (mean, var), rtol=1e-12, atol=0), 'wrong-fading', '%r' % (ch.fading_param,))
            los, nlos = abs(mean) ** 2, var
        if nlos > 1e-6:
            ctx.check(abs(ch.k_factor - los / nlos) <= 1e-6 * (1 + los / nlos), 'wrong-k-factor', '%r instead of %r' % (ch.k_factor, los / nlos))

    def send(n, kind):
        msg = rng.standard_normal(n)
        if kind == 'int':
            msg = rng.randint(-3, 4, n)
        elif kind == 'complex' or (kind == 'same' and cplx):
            msg = msg + 1j * rng.standard_normal(n)
        elif kind == 'complex64':
            msg = (msg + 1j * rng.standard_normal(n)).astype(np.complex64)
        if np.iscomplexobj(msg) and not cplx:
            refused(TypeError, ch.propagate, 'complex message', msg)
            return
        if std is None:
            refused(AssertionError, ch.propagate, 'unset noise', msg)
            return
        keep = msg.copy()
        y = np.asarray(ctx.lib(ch.propagate, msg))
        ctx.check(np.array_equal(msg, keep), 'input-altered', 'the message was altered')
        nv = -(-n // ntx)
        if mimo:
            pad = np.concatenate((keep, np.zeros(nv * ntx - n))).reshape(nv, ntx)
            shapes = ((nv, nrx), (nv, nrx), (nv, nrx, ntx), (nv, nrx))
        else:
            pad = keep
            shapes = ((n,),) * 4
        for name, a, s in zip(('output', 'noises', 'gains', 'noise-free output'), (y, ch.noises, ch.channel_gains, ch.unnoisy_output), shapes):
            ctx.check(np.shape(a) == s, 'wrong-shape', '%s of shape %s instead of %s' % (name, np.shape(a), s))
            ctx.check(cplx or not np.iscomplexobj(a), 'wrong-type', '%s of a real channel is complex' % name)
            ctx.check(np.isfinite(a).all(), 'not-finite', '%s is not finite' % name)
        clean = np.einsum('ijk,ik->ij', ch.channel_gains, pad) if mimo else ch.channel_gains * pad
        tol = 1e-5 if keep.dtype == np.complex64 else 1e-9
        big = 1 + np.abs(clean).max()
        ctx.check(np.abs(ch.unnoisy_output - clean).max() <= tol * big, 'wrong-output', 'the recorded noise-free output is not gains times message')
        ctx.check(np.abs(y - clean - ch.noises).max() <= tol * (big + np.abs(ch.noises).max()), 'wrong-output',
                  'the output is not gains times message plus noise')
        sent[0] += 1
        ctx.time('samples', n)
        ctx.probe('propagated')
        if mimo and n % ntx:
            ctx.probe('padded')

    def moments():
        """Exact first and second moments of (gains, noises) of two vectors: the channel is linear in its normal draws."""
        if std is None:
            return
        n = 2 * ntx
        msg = np.ones(n) + (0j if cplx else 0)
        draws = SIM.draws
        SIM.draws = None

        def once(hot):
            s = ScriptedNormals(np, hot)
            seams.set_thread_stream(s)
            try:
                ctx.lib(ch.propagate, msg)
            finally:
                seams.set_thread_stream(None)
            return s.n, np.concatenate((np.asarray(ch.channel_gains).reshape(-1), np.asarray(ch.noises).reshape(-1)))
        try:
            try:
                count, base = once(None)
            except Exception:
                return                                            # draws something else: no exact moments
            cols = [once(j)[1] - base for j in range(count)]
        finally:
            SIM.draws = draws
        if not cols:
            return
        A = np.array(cols).T
        C, Pc = A.dot(A.conj().T), A.dot(A.T)
        ng = 2 * nrx * ntx
        want_mean = np.tile(np.asarray(mean).reshape(-1), 2)
        ctx.check(np.allclose(base[:ng], want_mean, rtol=1e-9, atol=1e-9), 'wrong-mean', 'mean gains %s, expected %s' % (base[:ng], want_mean))
        ctx.check(np.abs(base[ng:]).max() == 0, 'wrong-mean', 'noise has a mean')
        W = np.zeros_like(C)
        g = np.kron(Rr, Rt) if mimo else np.array([[var]])
        k = nrx * ntx
        for v in range(2):
            W[v * k:(v + 1) * k, v * k:(v + 1) * k] = g
        W[ng:, ng:] = np.eye(2 * nrx) * std ** 2 * (0.5 if cplx else 1)
        err = np.abs(C - W)
        scale = np.ones_like(err) * (1e-5 * max(1.0, np.abs(g).max()))
        scale[ng:, ng:] = 1e-9 * (std ** 2 + 1e-300)
        scale[ng:, :ng] = scale[:ng, ng:] = 1e-6 * (1 + std)
        i, j = np.unravel_index(np.argmax(err / np.maximum(scale, 1e-300)), err.shape)

        def name(a):
            return 'gain %d of vector %d' % (a % k, a // k) if a < ng else 'noise %d' % (a - ng)
        ctx.check((err <= scale).all(), 'wrong-moments', 'E[%s conj %s] is %s, expected %s' % (name(i), name(j), C[i, j], W[i, j]))
        if cplx:
            ctx.check((np.abs(Pc[ng:, ng:]) <= scale[ng:, ng:]).all(), 'wrong-moments', 'the complex noise is not circular')
            # (unit average power of each gain follows from the mean and covariance above)
        ctx.probe('moments')
        ctx.state('moments', ntx, nrx, cplx, np.round(C, 4).tolist())

    config()
    for op in sc['ops']:
        if op[0] == 'send':
            send(op[1], op[2])
        elif op[0] in ('snr_db', 'snr_lin'):
            lin = 10 ** (op[1] / 10)
            if op[0] == 'snr_db':
                ctx.lib(ch.set_SNR_dB, op[1], op[2], op[3])
            else:
                ctx.lib(ch.set_SNR_lin, lin, op[2], op[3])
            # noise power per receive antenna: nb_tx Es / (rate SNR); a complex channel stores sqrt(2) times its deviation
            std = float(np.sqrt((2 if cplx else 1) * ntx * op[3] / (op[2] * lin)))
        elif op[0] == 'std':
            ch.noise_std = std = op[1]
        elif op[0] == 'unset':
            ch.noise_std = std = None
        elif op[0] == 'fade' and not mimo:
            var = float(1 - op[1])
            amp = float(np.sqrt(op[1]))
            if op[2] in ('real', 'float'):
                mean, cplx = (amp if op[3] < 0.7 else -amp), False
            else:
                mean = amp * complex(np.exp(2j * np.pi * op[3]))
                if op[2] == 'npcomplex':
                    mean = np.complex128(mean)
                cplx = True
            ch.fading_param = (mean, var)
        elif op[0] == 'fade':
            _, kind, a, b, bt, br, kf, s, ty = op
            rr = np.random.RandomState(s)
            c = kind.endswith('-c') or kind == 'expo'
            kind = kind.split('-')[0]
            m0 = rr.standard_normal((nrx, ntx)) + (1j * rr.standard_normal((nrx, ntx)) if c else 0)
            if not c and ty == 'complex':
                ty = 'float'
            if c and s % 3 == 0:                               # line of sight between two uniform arrays
                tt, dt, tr, dr = rr.rand(4) * (6.3, 2, 6.3, 2)
                got = ctx.lib(ch.specular_compo, tt, dt, tr, dr)
                m0 = np.exp(2j * np.pi * (np.arange(nrx)[:, None] * dr * np.cos(tr) + np.arange(ntx)[None, :] * dt * np.cos(tt)))
                ctx.check(np.shape(got) == m0.shape and np.allclose(got, m0, rtol=1e-9, atol=1e-9), 'wrong-specular',
                          'specular components %s, expected %s' % (got, m0))
                m0 = np.array(got)
                ctx.probe('specular-mean')
                refused(ValueError, lambda: ch.specular_compo(tt, *((-dt - 0.1, tr, dr) if s & 8 else (dt, tr, -dr - 0.1))), 'a negative spacing')
            t, u = unit(np, a, ty), unit(np, b, ty)
            et = np.arange(ntx)[None, :] - np.arange(ntx)[:, None]
            er = np.arange(nrx)[None, :] - np.arange(nrx)[:, None]
            Et = (1. * t) ** et * np.exp(-bt * np.abs(et))
            Er = (1. * u) ** er * np.exp(-br * np.abs(er))
            keep = m0.copy()
            scaled = m0 * np.sqrt(kf / (kf + 1) * ntx * nrx / (np.abs(m0) ** 2).sum())
            if kind == 'rayleigh':
                ctx.lib(ch.uncorr_rayleigh_fading, complex if c else float)
                mean, Rt, Rr = np.zeros((nrx, ntx)), np.eye(ntx), np.eye(nrx)
            elif kind == 'expo':
                ctx.lib(ch.expo_corr_rayleigh_fading, t, u, bt, br)
                mean, Rt, Rr = np.zeros((nrx, ntx)), Et, Er
            elif kind == 'rician':
                ctx.lib(ch.uncorr_rician_fading, m0, kf)
                mean, Rt, Rr = scaled, np.eye(ntx) / (kf + 1), np.eye(nrx)
            elif kind == 'exporice':
                ctx.lib(ch.expo_corr_rician_fading, m0, kf, t, u, bt, br)
                mean, Rt, Rr = scaled, Et / (kf + 1), Er
            else:
                B = rr.standard_normal((ntx, ntx)) + (1j * rr.standard_normal((ntx, ntx)) if c else 0)
                D = rr.standard_normal((nrx, nrx)) + (1j * rr.standard_normal((nrx, nrx)) if c else 0)
                Rt, Rr = B.dot(B.conj().T), D.dot(D.conj().T)
                Rt = Rt / np.trace(Rt).real * ntx / (kf + 1)
                Rr = Rr / np.trace(Rr).real * nrx
                mean = scaled
                ch.fading_param = (mean.copy(), Rt.copy(), Rr.copy())
            cplx = bool(c)
            ctx.check(np.array_equal(m0, keep), 'input-altered', 'the mean matrix was altered')
            ctx.probe('fading-' + kind)
        elif op[0] == 'reject':
            _, what, s, fam = op
            rr = np.random.RandomState(s)
            if not mimo:
                bad = (0.9 + (0.1j if s % 2 else 0), 0.5) if what != 'nan' else (float('nan'), 0.5)
                refused(ValueError, lambda: setattr(ch, 'fading_param', bad), 'energy %r' % (bad,))
            elif what in ('energy', 'nan'):
                f = (np.full((nrx, ntx), 0.5 + (0.2j if s % 2 else 0)), np.eye(ntx) * 1.5, np.eye(nrx))
                refused(ValueError, lambda: setattr(ch, 'fading_param', f), 'energy excess')
            else:
                m0 = rr.standard_normal((nrx, ntx)) + (1j * rr.standard_normal((nrx, ntx)) if s % 2 else 0)
                a = dict(t=1j, r=1.0 + 0j, betat=0, betar=0.5)
                a[what] = {'t': 1.01 + 0j, 'r': 0.5j, 'betat': -0.5, 'betar': -2}[what]
                if fam == 'rayleigh':
                    refused(ValueError, lambda: ch.expo_corr_rayleigh_fading(**a), '%s=%r' % (what, a[what]))
                else:
                    refused(ValueError, lambda: ch.expo_corr_rician_fading(m0, 2.0, **a), '%s=%r' % (what, a[what]))
        config()
        ctx.state(op[0], op[1] if len(op) > 1 else '', cplx, std, sent[0], ntx, nrx)
    moments()
    config()
