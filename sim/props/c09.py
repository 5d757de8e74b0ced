"""C09: design-file writes are complete, exclusive and crash-safe."""
import os

from .. import ldpcsim as D
from ..seams import SIM, Disk, Sched, SimCrash, SimInterrupt

SHRINK_LISTS = ('faults', 'plan', 'writers')
SHRINK_INTS = (('pre', 0),)


def gen(r, tier, index):
    nw = r.choice([1, 1, 1, 2, 2, 3])
    writers = []
    for _ in range(nw):
        writers.append({'m': D.gen_matrix(r, square_inv=r.random() < 0.4, big=r.random() < 0.3),
                        'dtype': r.choice(['int64', 'int64', 'int8', 'uint8', 'int32', 'bool'])})
    faults = []
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        op = r.choice([2, 2, 3, 4, r.randrange(1, 12), r.randrange(1, 80)])
        faults.append([op, r.choice([['short', r.randrange(1, 9)], ['enospc'], ['eio'], ['crash', r.randrange(0, 9)],
                                     ['short', 1]])])
    return {'writers': writers, 'faults': faults, 'bufsize': r.choice([None, None, 1, 4, 16, 64, 256]) if not faults else
            r.choice([None, 1, 2, 4, 8, 16, 32, 64]),
            'pre': r.choice([0, 0, 0, 0, 1, 2]) if not faults else r.choice([0] * 9 + [1]), 'plan': D.gen_plan(r, r.randrange(0, 30), 80) if nw > 1 else [],
            'exit': r.choice(['crash', 'crash', 'keep']), 'matrix': r.random() < 0.3}


def run(sc, ctx):
    import numpy as np
    from commpy.channelcoding import ldpc
    root = D.rewrite_cost_dir()
    try:
        _run(sc, ctx, np, ldpc, root)
    finally:
        SIM.disk = None
        D.cleanup(root)


def _run(sc, ctx, np, ldpc, root):
    if not sc['writers']:
        return
    path = os.path.join(root, 'code.txt')
    before = None
    if sc['pre']:
        before = D.text_of(sc['writers'][0]['m']).encode() if sc['pre'] == 1 else b''
        with open(path, 'wb') as f:
            f.write(before)
    disk = Disk(root, sc['bufsize'])
    SIM.disk = disk
    disk.plan = {op: tuple(act) for op, act in sc['faults']}
    arrays = [D.to_array(np, w['m'], w['dtype']) for w in sc['writers']]
    copies = [a.copy() for a in arrays]
    bodies = [lambda a=a: ldpc.write_ldpc_params(a, path) for a in arrays]
    if len(bodies) == 1:
        try:
            results = [('ok', bodies[0]())]
        except BaseException as e:
            results = [('exc', e)]
    else:
        s = Sched(bodies, sc['plan'])
        results = s.run()
        ctx.state('sched', s.switches)
        ctx.time('scheduler_steps', s.steps)
    io_fault = any(k == 'disk-full' or k.endswith('-error') or k.startswith('crash-in-') for k in SIM.counts)
    crashed = disk.dead
    outs = []
    for i, (st, v) in enumerate(results):
        if st == 'ok':
            outs.append('ok')
        elif isinstance(v, FileExistsError):
            outs.append('exists')
        elif isinstance(v, SimCrash):
            outs.append('crash')
        elif isinstance(v, OSError):
            outs.append('oserror')
            ctx.check(io_fault, 'unexpected-exception', 'writer %d failed with %r and no fault was injected' % (i, v))
        else:
            ctx.check(False, 'unexpected-exception', 'writer %d failed with %r' % (i, v))
    ctx.state('out', outs, sc['bufsize'], len(disk.trace))
    ctx.time('disk_operations', len(disk.trace))
    for o in outs:
        ctx.probe('writer-' + o)
    for a, b in zip(arrays, copies):
        ctx.check((a == b).all(), 'matrix-altered', 'the matrix given to the writer was modified')
    # the process dies (or not) right after the calls returned
    if sc['exit'] == 'crash' or crashed:
        SIM.fired('process-restart')
        disk.restart()
    SIM.disk = None
    now = None
    if os.path.exists(path):
        with open(path, 'rb') as f:
            now = f.read()
    if before is not None:
        ctx.check(now == before, 'existing-file-modified', 'an existing file changed from %r to %r' % (before[:40], (now or b'')[:40]))
        ctx.check('ok' not in outs, 'existing-file-accepted', 'a write to an existing path returned normally')
        ctx.check(all(o in ('exists', 'crash') or io_fault for o in outs), 'no-exists-error', 'outcomes %s on an existing file' % outs)
        ctx.probe('existing-file')
        return
    ok = [i for i, o in enumerate(outs) if o == 'ok']
    ctx.check(len(ok) <= 1, 'two-writers-succeed', 'outcomes %s' % outs)
    if not io_fault:
        ctx.check(len(ok) == 1 and outs.count('exists') == len(outs) - 1, 'no-writer-succeeds', 'outcomes %s without a fault' % outs)
    if len(outs) > 1 and ok:
        ctx.probe('one-of-several')
    if ok:
        m = sc['writers'][ok[0]]['m']
        ctx.check(now is not None, 'lost-file', 'the write returned normally and the file does not exist')
        try:
            p = ldpc.get_ldpc_code_params(path)
        except Exception as e:
            ctx.check(False, 'incomplete-file', 'the write returned normally (%s, faults %s) but reading fails: %s: %s; file '
                      'has %d bytes' % (outs, sc['faults'], type(e).__name__, e, len(now)))
        cc, cv = D.code_of(np, p)
        ctx.check(cc == D.edges_of(m) and cv == D.edges_of(m), 'wrong-code-written', 'the file read back is another code')
        ctx.check(D.maps_ok(np, p), 'wrong-maps', 'edge maps of the loaded code are inconsistent')
        if sc['matrix'] and np.linalg.matrix_rank(arrays[ok[0]][:, -len(m['rows']):].astype(float)) == len(m['rows']):
            p = ctx.lib(ldpc.get_ldpc_code_params, path, True)
            ctx.check((p['parity_check_matrix'].toarray() == arrays[ok[0]]).all(), 'wrong-matrix',
                      'the parity-check matrix read back differs')
            ctx.probe('matrix-compared')
    elif crashed or io_fault:
        ctx.probe('write-failed')
        # whatever is left: a later write must not touch it, and loading it gives no other code
        if now is not None:
            try:
                ldpc.write_ldpc_params(arrays[0], path)
                ctx.check(False, 'existing-file-accepted', 'a write over the remains of a failed write succeeded')
            except FileExistsError:
                pass
            with open(path, 'rb') as f:
                ctx.check(f.read() == now, 'existing-file-modified', 'the remains of a failed write were modified')
    if not sc['faults'] and len(sc['writers']) == 1:
        ctx.probe('clean-write')
