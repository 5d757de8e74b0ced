"""C10: a damaged or incomplete design file is never loaded as a different code."""
import os

from .. import ldpcsim as D
from ..seams import SIM, Disk, Sched

SHRINK_LISTS = ('damage', 'plan', 'faults')
BUDGET = 8000000
DESIGNS = ['gallager/96.3.963.txt', 'gallager/96.33.964.txt']


def gen(r, tier, index):
    mode = r.choice(['bytes', 'bytes', 'bytes', 'truncate', 'truncate', 'io', 'writing'])
    sc = {'mode': mode, 'm': D.gen_matrix(r, square_inv=r.random() < 0.3, big=r.random() < 0.4),
          'trailing': r.random() < 0.8, 'design': None, 'damage': [], 'faults': [], 'plan': [], 'bufsize': None,
          'writer': r.choice(['lib', 'own'])}
    if mode in ('bytes', 'truncate') and r.random() < 0.08:
        sc['design'] = r.choice(DESIGNS)
    n = 8 if sc['design'] else 60
    if mode == 'bytes':
        for _ in range(n):
            # position as a fraction, new byte; most replacements stay in the alphabet of the format
            sc['damage'].append([r.random(), r.choice([48 + r.randrange(10), 48 + r.randrange(10), 48 + r.randrange(10),
                                                       9, 10, 32, 43, 45, 95, 46, 0, 13, r.randrange(256)])])
    elif mode == 'truncate':
        sc['damage'] = [[r.random(), -1] for _ in range(n)]
    elif mode == 'io':
        sc['bufsize'] = r.choice([1, 3, 16, 64, None])
        for _ in range(r.choice([1, 2, 6, 20])):
            sc['faults'].append([r.choice([1, 2, 3, 4, r.randrange(1, 40)]), r.choice([['short', r.randrange(1, 5)], ['short', 1],
                                                                             ['short', 17], ['eio'], ['crash', 0]])])
    else:
        sc['bufsize'] = r.choice([1, 4, 16, 64, 256])
        sc['plan'] = D.gen_plan(r, r.randrange(4, 60), 60)
        sc['readers'] = r.choice([1, 2])
    return sc


def run(sc, ctx):
    import numpy as np
    from commpy.channelcoding import ldpc
    root = D.rewrite_cost_dir()
    try:
        _run(sc, ctx, np, ldpc, root)
    finally:
        SIM.disk = None
        D.cleanup(root)


def load(ctx, np, ldpc, path, want, what):
    """-> 'exact' or the exception name; a different code is a violation."""
    try:
        p = ldpc.get_ldpc_code_params(path)
    except Exception as e:
        return type(e).__name__
    cc, cv = D.code_of(np, p)
    if cc != want:
        ctx.check(False, 'different-code', '%s: loaded a code with %d/%d nodes, %d edges; the file held %d/%d, %d (edges '
                  'lost %s, new %s)' % (what, cc[0], cc[1], len(cc[2]), want[0], want[1], len(want[2]),
                                        sorted(want[2] - cc[2])[:4], sorted(cc[2] - want[2])[:4]))
    ctx.check(cv == want, 'different-code-vnodes', '%s: variable-node lists describe another code' % what)
    return 'exact'


def _run(sc, ctx, np, ldpc, root):
    path = os.path.join(root, 'good.txt')
    want = D.edges_of(sc['m'])
    if sc['mode'] == 'writing':
        disk = Disk(root, sc['bufsize'])
        SIM.disk = disk
        a = D.to_array(np, sc['m'])
        got = []

        def writer():
            ldpc.write_ldpc_params(a, path)

        def reader():
            while True:
                out = load(ctx, np, ldpc, path, want, 'while being written')
                got.append(out)
                if out == 'exact' or len(got) > 12:
                    return
        bodies = [writer] + [reader] * sc['readers']
        s = Sched(bodies, sc['plan'])
        for st, v in s.run():
            if st == 'exc':
                raise v
        ctx.time('scheduler_steps', s.steps)
        ctx.state('sched', s.switches)
        for g in got:
            ctx.probe('writing-' + ('exact' if g == 'exact' else 'refused'))
        SIM.disk = None
        ctx.check(load(ctx, np, ldpc, path, want, 'after the write') == 'exact', 'good-file-refused', 'complete file refused')
        return
    if sc['design']:
        src = os.path.join(os.path.dirname(ldpc.__file__), 'designs', 'ldpc', sc['design'])
        with open(src, 'rb') as f:
            data = f.read()
        want = D.code_of(np, ctx.lib(ldpc.get_ldpc_code_params, src))[0]
        with open(path, 'wb') as f:
            f.write(data)
    elif sc['writer'] == 'lib':
        ctx.lib(ldpc.write_ldpc_params, D.to_array(np, sc['m']), path)
        with open(path, 'rb') as f:
            data = f.read()
    else:
        data = D.text_of(sc['m'], sc['trailing']).encode()
        with open(path, 'wb') as f:
            f.write(data)
    ctx.check(load(ctx, np, ldpc, path, want, 'undamaged') == 'exact', 'good-file-refused', 'undamaged file refused')
    if sc['mode'] == 'io':
        disk = Disk(root, sc['bufsize'])
        SIM.disk = disk
        disk.plan = {op: tuple(a) for op, a in sc['faults']}
        try:
            out = load(ctx, np, ldpc, path, want, 'with read faults %s' % sc['faults'])
        except BaseException as e:
            if type(e).__name__ != 'SimCrash':
                raise
            out = 'SimCrash'
        SIM.disk = None
        hard = any(k in SIM.counts for k in ('read-error', 'crash-in-read'))
        ctx.check(out == 'exact' or hard, 'good-file-refused', 'short reads make loading fail: %s' % out)
        ctx.probe('io-' + ('exact' if out == 'exact' else 'refused'))
        ctx.time('disk_operations', len(disk.trace))
        ctx.state('io', out, len(disk.trace), sc['faults'])
        return
    for frac, byte in sc['damage']:
        pos = min(len(data) - 1, int(frac * len(data)))
        if byte == -1:
            bad = data[:pos]
            what = 'truncated to %d of %d bytes' % (pos, len(data))
        else:
            if data[pos] == byte:
                continue
            bad = data[:pos] + bytes([byte]) + data[pos + 1:]
            what = 'byte %d of %d changed from %r to %r' % (pos, len(data), data[pos:pos + 1], bytes([byte]))
        ctx.fault('truncation' if byte == -1 else 'byte-damage')
        path2 = os.path.join(root, 'bad.txt')
        with open(path2, 'wb') as f:
            f.write(bad)
        out = load(ctx, np, ldpc, path2, want, what)
        ctx.probe('damaged-' + ('exact' if out == 'exact' else 'refused'))
        ctx.state(sc['mode'], out, data[max(0, pos - 1):pos + 2], byte)
