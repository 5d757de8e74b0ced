"""C33: no call leaves anything behind in the process, however it ends."""
import os
import random

from .. import ldpcsim as D
from .. import ops as O
from ..core import fork_call
from ..seams import SIM, AllocPolicy, CallbackFault, Disk, SimInterrupt, SimMemoryError, Tracer
from .c07 import measure, place, race_only

SHRINK_LISTS = ('ops',)
TIMEOUT = 90.0
EXTRA = ['ldpc-file-write', 'ldpc-file-read', 'ldpc-file-broken']


def gen(r, tier, index):
    ops = []
    for o in O.gen_ops(r, r.choice([1, 2, 3, 5, 8])):
        if r.random() < 0.2:
            o[0] = r.choice(EXTRA)
        fault = None
        if r.random() < 0.75:
            fault = [r.choice(['line', 'place', 'place', 'alloc', 'callback', 'disk']), r.random()]
            if o[0] in EXTRA and r.random() < 0.7:
                fault[0] = 'disk'
            elif fault[0] == 'callback':
                o = O.gen_ops(r, 1, only=('link', 'link', 'best-first', 'max-log'))[0]
        ops.append(o + [fault])
    return {'world': r.randrange(1 << 30), 'ops': ops, 'poison': r.random() < 0.3,
            'err': [r.choice(['ignore', 'warn', 'print']) for _ in range(4)], 'precision': r.choice([8, 3, 12]),
            'filters': r.choice(['ignore', 'default', 'always']), 'recursion': r.choice([None, 3000])}


def prepared(w, o):
    """Like ops.prepare, with the file operations of this property."""
    if o[0] not in EXTRA:
        return O.prepare(w, o)
    from commpy.channelcoding import ldpc
    rs = random.Random(o[1])
    m = D.gen_matrix(rs, square_inv=True)
    path = os.path.join(w.dir, 'x%d' % (o[1] % 3))
    if o[0] == 'ldpc-file-write':
        if os.path.exists(path) and o[1] & 4:
            os.unlink(path)
        return O.Call(ldpc.write_ldpc_params, D.to_array(w.np, m), path)
    if o[0] == 'ldpc-file-broken' or not os.path.exists(path):
        text = D.text_of(m)
        if o[0] == 'ldpc-file-broken':
            i = rs.randrange(len(text))
            text = text[:i] + rs.choice(['', 'x', '\n', '99\t']) + ('' if o[1] & 8 else text[i + 1:])
        with open(path, 'w') as f:
            f.write(text)
    return O.Call(ldpc.get_ldpc_code_params, path, bool(o[1] & 16))


def open_files():
    """Open descriptors, except on files of the Python installation and of the user's caches (fonts kept open by Matplotlib, ...)."""
    import sys
    import matplotlib
    own = (sys.prefix, sys.base_prefix, '/usr', os.path.expanduser('~/.'), matplotlib.get_data_path(), matplotlib.get_cachedir())
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            to = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue                                           # the directory listing itself
        if not to.startswith(own):
            out.append('%s %s' % (fd, to))
    return sorted(out)


def process_state(np):
    import signal
    import sys
    import threading
    import time
    import warnings
    import decimal
    import tempfile
    st = {'numpy error handling': np.geterr(), 'numpy error callback': np.geterrcall(), 'print options': str(np.get_printoptions()), 'warning filters': list(warnings.filters),
          'showwarning': warnings.showwarning, 'random module': random.getstate(), 'working directory': os.getcwd(), 'environment': dict(os.environ),
          'module path': list(sys.path), 'recursion limit': sys.getrecursionlimit(), 'threads': threading.active_count(),
          'decimal context': str(decimal.getcontext()), 'open files': open_files(), 'excepthook': sys.excepthook,
          'stdout': sys.stdout, 'stderr': sys.stderr, 'umask': None, 'temporary files': sorted(os.listdir(tempfile.gettempdir())) if
          tempfile.gettempdir().startswith(os.environ.get('VERIF_SCRATCH', '/nonexistent')) else None,
          'signal handlers': [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)]}
    if hasattr(signal, 'getitimer'):
        st['timers'] = signal.getitimer(signal.ITIMER_REAL)[1]
    u = os.umask(0o22)
    os.umask(u)
    st['umask'] = u
    st['trace'] = sys.gettrace()
    return st


def run(sc, ctx):
    import sys
    import tempfile
    import warnings
    import numpy as np
    w = O.World(sc['world'])
    tmp = os.path.join(w.dir, 'tmp')
    os.mkdir(tmp)
    tempfile.tempdir = tmp
    # the caller's own settings
    np.seterr(**dict(zip(('divide', 'over', 'under', 'invalid'), sc['err'])))
    np.set_printoptions(precision=sc['precision'])
    warnings.simplefilter(sc['filters'])
    random.seed(sc['world'])
    if sc['recursion']:
        sys.setrecursionlimit(sc['recursion'])
    devnull = open(os.devnull, 'w')
    sys.stdout = sys.stderr = devnull                          # warnings of the caller's choosing are not of interest
    os.listdir('/proc/self/fd')
    try:
        for i, (name, a, s, fault) in enumerate(sc['ops']):
            o = [name, a, s]
            kind, at, exc = None, None, None
            if fault is not None and fault[0] != 'disk' and name not in EXTRA:
                m = fork_call(measure, (w, o), 60)
                assert m[0] == 'ok', m
                lines, allocs, cbs, places = m[1]
                n = {'line': lines, 'place': lines, 'alloc': allocs, 'callback': cbs}[fault[0]]
                kind = fault[0] if n and fault[0] != 'place' else 'line'
                n = n or lines
                at = place(places, fault[1]) if fault[0] == 'place' and places else min(n, 1 + int(fault[1] * n))
            elif fault is not None and name in EXTRA:
                kind = 'disk' if fault[0] == 'disk' else 'line'
                at = 1 + int(fault[1] ** 2 * 60)
            exc = SimInterrupt('injected') if a & 1 else SimMemoryError('injected')
            if kind == 'line' and race_only(prepared, w, o, at, exc, lambda: {k: str(x) for k, x in process_state(np).items()}):
                ctx.probe('unavoidable-race')
                continue
            c = prepared(w, o)
            O.stream(o)
            if kind == 'disk':
                SIM.disk = Disk(w.dir, [None, 16, 1][a % 3])
                SIM.disk.plan = {at: [('eio',), ('enospc',), ('short', 1)][a % 3 if name == 'ldpc-file-write' else 0]}
            SIM.alloc = AllocPolicy('junk', i, fail_at=at if kind == 'alloc' else None) if sc['poison'] or kind == 'alloc' else None
            w.ticks, w.cbfault = 0, at if kind == 'callback' else None
            t = None
            before = process_state(np)
            how = 'returned'
            try:
                if kind == 'line':
                    with Tracer(at=at, exc=exc) as t:
                        c.run()
                else:
                    c.run()
            except (SimInterrupt, SimMemoryError, CallbackFault) as e:
                how = 'was aborted'
                e.__traceback__ = None
                e.__context__ = None
            except Exception as e:
                how = 'failed with %s' % type(e).__name__
                e.__traceback__ = None
                e.__context__ = None
            after = process_state(np)
            SIM.alloc = None
            SIM.disk = None
            w.cbfault = None
            if t is not None and t.hit:
                SIM.fired('interrupt' if a & 1 else 'memory-error')
            for k in before:
                if before[k] != after[k]:
                    d = 'before %s, after %s' % (str(before[k])[:200], str(after[k])[:200])
                    if isinstance(before[k], dict):
                        d = str({x: (before[k].get(x), after[k].get(x)) for x in set(before[k]) | set(after[k]) if before[k].get(x) != after[k].get(x)})[:300]
                    elif isinstance(before[k], list):
                        d = 'gone %s, new %s' % ([str(x) for x in before[k] if x not in after[k]][:4], [str(x) for x in after[k] if x not in before[k]][:4])
                    ctx.check(False, 'left-behind', '%s %s (%s at %s): %s: %s' % (o, how, kind, at, k, d))
            ctx.probe(how.split()[0] if how.startswith('failed') else how.replace('was ', ''))
            ctx.probe('ended-by-' + kind if kind and how != 'returned' else 'ran')
            ctx.state(name, kind, at, how)
    finally:
        sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
        devnull.close()
        tempfile.tempdir = None
        SIM.disk = None
        D.cleanup(tmp)
        D.cleanup(w.dir)
