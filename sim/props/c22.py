"""C22: interleavers agree between places, times and threads, and stay out of the simulation's random stream."""
from ..core import isolated
from ..seams import SIM, Sched
from .. import ldpcsim as D

SHRINK_LISTS = ('ops', 'plan')


def gen(r, tier, index):
    ops = []
    keys = [[r.choice([1, 2, 3, 7, 16, 33, 100, 257]), r.choice([0, 1, 42, 12345, r.randrange(1 << 32)])] for _ in range(r.choice([1, 2, 3]))]
    for _ in range(r.choice([3, 6, 12])):
        op = r.choice(['build', 'build', 'draw', 'seed', 'use', 'use', 'use', 'bad', 'scribble', 'simulate'])
        ops.append([op, r.randrange(len(keys)), r.randrange(1 << 30),
                    r.choice(['int64', 'int8', 'uint8', 'float64', 'float32', 'complex128', 'bool', 'U3', 'object', 'int32'])])
    return {'keys': keys, 'ops': ops, 'threads': r.choice([0, 0, 2, 3]),
            'plan': D.gen_plan(r, r.randrange(0, 20), 12)}


def perm(length, seed):
    import numpy as np
    from commpy.channelcoding.interleavers import RandInterlv
    return np.array(RandInterlv(length, seed).p_array)


def data(np, dtype, n, seed):
    rs = np.random.RandomState(seed)
    if dtype == 'U3':
        return np.array([str(v) for v in rs.randint(0, 999, n)], 'U3')
    if dtype == 'object':
        return np.array([('x', int(v)) if v % 3 else None for v in rs.randint(0, 99, n)] + [None], dtype=object)[:n]
    if dtype == 'bool':
        return rs.randint(0, 2, n).astype(bool)
    if dtype == 'complex128':
        return rs.standard_normal(n) + 1j * rs.standard_normal(n)
    if dtype.startswith('float'):
        a = (rs.standard_normal(n) * 10.0 ** rs.randint(-30, 30)).astype(dtype)
        return a
    info = np.iinfo(dtype)
    return rs.randint(info.min, info.max, n, dtype=dtype) if dtype != 'int64' else rs.randint(-2 ** 62, 2 ** 62, n)


def eq(np, a, b):
    return a.shape == b.shape and a.dtype == b.dtype and (a == b).all() if a.dtype != object else list(a) == list(b)


def run(sc, ctx):
    import numpy as np
    from commpy.channelcoding.interleavers import RandInterlv
    refs = []
    for n, s in sc['keys']:
        out = isolated(perm, n, s)
        ctx.check(out[0] == 'ok', 'unexpected-exception', 'building an interleaver fails: %s' % (out,))
        p = out[1]
        ctx.check(sorted(p.tolist()) == list(range(n)), 'not-a-permutation', 'length %d seed %d gives %s' % (n, s, p[:20]))
        refs.append(p)
    objs = []
    np.random.seed(99)

    def build(k):
        before = np.random.get_state()
        o = ctx.lib(RandInterlv, *sc['keys'][k])
        after = np.random.get_state()
        ctx.check((before[1] == after[1]).all() and before[2:] == after[2:], 'stream-disturbed',
                  'building an interleaver changed the global random stream')
        ctx.check(np.array_equal(o.p_array, refs[k]), 'different-permutation', 'length %d seed %d: %s, elsewhere %s' % (
            sc['keys'][k][0], sc['keys'][k][1], np.array(o.p_array)[:12], refs[k][:12]))
        return o

    def use(o, k, dtype, seed):
        n = sc['keys'][k][0]
        a = data(np, dtype, n, seed)
        keep = a.copy()
        t = ctx.lib(o.interlv, a)
        ctx.check(eq(np, a, keep), 'input-altered', 'interlv altered its input')
        ctx.check(eq(np, t, a[refs[k]]), 'wrong-order', 'interlv does not follow its permutation (%s)' % dtype)
        tk = t.copy()
        b = ctx.lib(o.deinterlv, t)
        ctx.check(eq(np, t, tk), 'input-altered', 'deinterlv altered its input')
        ctx.check(eq(np, b, keep), 'not-restored', 'de-interleaving does not restore a %s array of length %d' % (dtype, n))
        c = ctx.lib(o.interlv, ctx.lib(o.deinterlv, a))
        ctx.check(eq(np, c, keep), 'not-restored', 'interleaving a de-interleaved %s array does not restore it' % dtype)
        ctx.time('symbols', 4 * n)
    if sc['threads']:
        def body(i):
            def go():
                for op, k, seed, dtype in sc['ops'][i::sc['threads']]:
                    if op in ('build', 'use', 'draw'):
                        o = RandInterlv(*sc['keys'][k])
                        ctx.check(np.array_equal(o.p_array, refs[k]), 'different-permutation', 'in thread %d' % i)
                        use(o, k, dtype, seed)
            return go
        s = Sched([body(i) for i in range(sc['threads'])], sc['plan'], streams=[np.random.RandomState(i) for i in range(sc['threads'])])
        for st, v in s.run():
            if st == 'exc':
                raise v
        ctx.state('sched', s.switches)
        ctx.probe('threads')
        ctx.time('scheduler_steps', s.steps)
    for op, k, seed, dtype in sc['ops']:
        if op == 'build' or not objs:
            objs.append((k, build(k)))
            ctx.probe('built')
        if op == 'draw':
            np.random.random(seed % 700)
            SIM.fired('foreign-draws')
        elif op == 'seed':
            np.random.seed(seed)
            SIM.fired('reseed')
        elif op == 'use':
            k2, o = objs[seed % len(objs)]
            use(o, k2, dtype, seed)
            ctx.probe('used')
        elif op == 'bad':
            k2, o = objs[seed % len(objs)]
            for fn in (o.interlv, o.deinterlv):
                try:
                    fn(np.arange(max(0, sc['keys'][k2][0] - 1)))
                except Exception:
                    SIM.fired('failed-call')
        elif op == 'scribble':
            # a user edits the permutation of one interleaver: others built later are not affected
            k2, o = objs.pop(seed % len(objs))
            try:
                o.p_array[...] = 0
            except ValueError:
                pass
            SIM.fired('scribbled-object')
        elif op == 'simulate':
            from commpy.channels import SISOFlatChannel
            SISOFlatChannel(1.0).propagate(np.ones(5))
    for k, o in objs:
        ctx.check(np.array_equal(o.p_array, refs[k]), 'permutation-changed', 'an interleaver changed after being built')
    ctx.state(sc['keys'], [(o[0], o[3]) for o in sc['ops']])
