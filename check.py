#!/usr/bin/env python3
"""check.py PROPERTY [--runs N] [--seed S] [--tier quick|thorough] : seeded simulation search for one property."""
import argparse
import importlib
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PYPY = os.environ.get('VERIF_PYTHON') or '/opt/venv-pypy/bin/python'
ENV_FIX = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
           'MPLBACKEND': 'Agg', 'PYTHONNOUSERSITE': '1', 'MKL_NUM_THREADS': '1'}


def reexec():
    if os.environ.get('VERIF_SIM_CHILD') != '1':
        env = dict(os.environ, **ENV_FIX)
        env['VERIF_SIM_CHILD'] = '1'
        exe = PYPY if os.path.exists(PYPY) else sys.executable
        scratch = tempfile.mkdtemp(prefix='verif-sim-')
        env['VERIF_SCRATCH'] = scratch
        env['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
        os.makedirs(env['MPLCONFIGDIR'])
        rc = 2
        try:
            rc = subprocess.call([exe, os.path.abspath(__file__)] + sys.argv[1:], env=env)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(rc if rc in (0, 1) else 2)


def worker(prop, seed, tier, w, nw, nruns, deadline, outdir):
    """Executes run indices w, w+nw, ... and writes one pickled record per run."""
    from sim import core, seams
    seams.install()
    mod = importlib.import_module('sim.props.' + prop.lower())
    if hasattr(mod, 'prepare'):
        mod.prepare()
    known = load_known()
    with open(os.path.join(outdir, 'w%d' % w), 'wb') as f:
        i = w
        while i < nruns:
            if time.time() > deadline or os.path.exists(os.path.join(outdir, 'stop')):
                break
            sc = core.make_scenario(mod, prop, seed, i, tier)
            r = core.run_scenario(mod, sc)
            pickle.dump((i, sc, r), f, 4)
            f.flush()
            if r['status'] != 'ok' and not (r['status'] == 'violation' and known_match(known, prop, r)):
                nbad = os.path.join(outdir, 'bad%d' % i)
                open(nbad, 'w').close()
                if len([n for n in os.listdir(outdir) if n.startswith('bad')]) >= int(os.environ.get('VERIF_STOP_AFTER', '24')):
                    open(os.path.join(outdir, 'stop'), 'w').close()
            i += nw
    os._exit(0)


def read_records(outdir):
    recs = []
    for n in sorted(os.listdir(outdir)):
        if not n.startswith('w'):
            continue
        with open(os.path.join(outdir, n), 'rb') as f:
            while True:
                try:
                    recs.append(pickle.load(f))
                except EOFError:
                    break
                except Exception:
                    break
    recs.sort(key=lambda x: x[0])
    return recs


def load_known():
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        return json.load(f)['findings']


def known_match(known, prop, rec):
    for k in known:
        if k.get('status') == 'known' and k['property'] == prop and k['kind'] == rec['kind'] and \
                all(s in rec['detail'] for s in k.get('match', [])):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick') or 'quick')
    ap.add_argument('--workers', type=int, default=int(os.environ.get('VERIF_WORKERS', '0')) or None)
    ap.add_argument('--role', default='main')
    ap.add_argument('--args', default='')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--fast', action='store_true', help='stop at the first violation and do not minimise it')
    a = ap.parse_args()
    prop = a.prop.upper()
    from sim import core
    if a.role == 'worker':
        kw = json.loads(a.args)
        worker(prop, **kw)
        return 0
    if a.role == 'rerun':                 # determinism re-run of given indices in a fresh interpreter
        kw = json.loads(a.args)
        worker(prop, **kw)
        return 0
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'

    if a.fast:
        os.environ['VERIF_STOP_AFTER'] = '1'
    t0 = time.time()
    meta = importlib.import_module('sim.plan').PLAN[prop]
    nruns = a.runs or meta['runs'][a.tier]
    cap = meta.get('cap', {}).get(a.tier) or (120 if a.tier == 'quick' else 3000)
    nw = a.workers or min(8, os.cpu_count() or 1)
    scratch = os.environ['VERIF_SCRATCH']
    outdir = os.path.join(scratch, 'out')
    os.makedirs(outdir)
    deadline = time.time() + cap

    def spawn(w, nw, nruns, outdir, env=None, deadline=deadline):
        kw = dict(seed=a.seed, tier=a.tier, w=w, nw=nw, nruns=nruns, deadline=deadline, outdir=outdir)
        return subprocess.Popen([sys.executable, os.path.abspath(__file__), prop, '--role', 'worker', '--args',
                                 json.dumps(kw)], env=env or os.environ, stdout=subprocess.DEVNULL,
                                stderr=open(os.path.join(outdir, 'err%d' % w), 'w'))
    procs = [spawn(w, nw, nruns, outdir) for w in range(nw)]
    # determinism re-run: the first runs once more in another interpreter: other hash seed, other heap contents
    nre = min(nruns, meta.get('rerun', 4))
    outre = os.path.join(scratch, 're')
    os.makedirs(outre)
    env2 = dict(os.environ, PYTHONHASHSEED=str(1000 + a.seed % 1000), MALLOC_PERTURB_='165')
    procs.append(spawn(0, 1, nre, outre, env=env2))
    rcs = [p.wait() for p in procs]
    recs = read_records(outdir)
    rerecs = {r[0]: r for r in read_records(outre)}
    wall = time.time() - t0
    if any(rcs) or not recs:
        for d in (outdir, outre):
            for n in sorted(os.listdir(d)):
                if n.startswith('err'):
                    txt = open(os.path.join(d, n)).read()
                    if txt.strip():
                        print(n, txt[-1500:], file=sys.stderr)
        # an import failure of the package under test is a failure of every property it carries
        print('HARNESS-ERROR worker exit codes %s, %d records' % (rcs, len(recs)))
        return 2

    from sim import seams
    mod = None

    def load():
        nonlocal mod
        if mod is None:
            seams.install()
            mod = importlib.import_module('sim.props.' + prop.lower())
            if hasattr(mod, 'prepare'):
                mod.prepare()
        return mod

    violations = [(i, sc, r) for i, sc, r in recs if r['status'] == 'violation']
    errors = [(i, sc, r) for i, sc, r in recs if r['status'] == 'error']
    # re-run mismatches
    mism = []
    for i, sc, r in recs:
        if i in rerecs:
            r2 = rerecs[i][2]
            if r['status'] != r2['status'] or (r['status'] == 'ok' and (
                    r['states'] != r2['states'] or r['counts'] != r2['counts'] or r['steps'] != r2['steps'])):
                mism.append(i)
            elif prop == 'C05' and r['status'] == 'ok':
                from sim import ops
                if ops.diff(r['value'], r2['value'], rtol=1e-6):
                    mism.append(i)
    known = load_known()
    seen_known = {}
    fresh = []
    for i, sc, r in violations:
        k = known_match(known, prop, r)
        if k:
            seen_known.setdefault(k['what'], []).append(i)
        else:
            fresh.append((i, sc, r))
    rc = 0
    lines = []
    reported = []
    by_kind = {}
    for v in fresh:
        by_kind.setdefault(v[2]['kind'], []).append(v)
    for kind, vs in list(by_kind.items())[:3]:
        m = load()
        # smallest failing run first
        vs = sorted(vs, key=lambda v: (len(json.dumps(v[1])), v[0]))
        done = None
        for i, sc, r in vs[:3]:
            if time.time() - t0 > 350:                         # slow failures (endless loops): leave time for an answer
                break
            again = core.run_scenario(m, sc)
            if again['status'] == 'violation':
                small, nsh = core.shrink(m, sc, again['kind'], max_s=0.0 if a.fast or time.time() - t0 > 250 else 30.0)
                fin = core.run_scenario(m, small)
                if fin['status'] != 'violation':
                    small, fin = sc, again
                done = (i, sc, small, fin, nsh, True)
                break
        if done is None:
            i, sc, r = vs[0]
            done = (i, sc, sc, r, 0, False)
        i, sc, small, fin, nsh, confirmed = done
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s-%d.json' % (prop, core.h(json.dumps(small, sort_keys=True)), a.seed))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'kind': fin['kind'], 'detail': fin['detail'], 'seed': a.seed, 'index': i,
                       'confirmed_by_replay': confirmed, 'shrink_runs': nsh, 'scenario': small,
                       'original_scenario': sc, 'faults': fin.get('counts', {})}, f, indent=1, sort_keys=True)
        lines.append('%s: %s (run %d of seed %d, %d failing runs of this kind, minimised in %d runs)' % (
            fin['kind'], fin['detail'][:600], i, a.seed, len(vs), nsh))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        reported.append(fin['kind'])
        rc = 1
    for what, idx in seen_known.items():
        lines.append('KNOWN-FINDING: property=%s %s (%d runs)' % (prop, what, len(idx)))
    if errors and rc == 0:
        rc = 2
    if mism and rc == 0:
        if prop == 'C05':
            i = mism[0]
            sc = [s for j, s, _ in recs if j == i][0]
            rdir = os.path.join(HERE, 'replays')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, 'C05-hashseed-%d.json' % i)
            json.dump({'property': prop, 'kind': 'hash-seed', 'scenario': sc, 'seed': a.seed, 'index': i,
                       'detail': 'run differs under another PYTHONHASHSEED'}, open(path, 'w'), indent=1)
            lines.append('VIOLATION property=C05 replay=%s' % path)
            rc = 1
        else:
            lines.append('NOTE: runs %s differ under another hash seed / heap contents' % mism)

    ok = [(i, sc, r) for i, sc, r in recs if r['status'] == 'ok']
    counts, probes, simtime, states = {}, {}, {}, set()
    steps = 0
    nontriv = set()
    for i, sc, r in ok:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r['probes'].items():
            probes[k] = probes.get(k, 0) + v
        for k, v in r['simtime'].items():
            simtime[k] = simtime.get(k, 0) + v
        states.update(r['states'])
        steps += r['steps']
        if r['nontrivial']:
            nontriv.add(core.h({k: v for k, v in sc.items() if k not in ('index',)}))
    dead_probes = [p for p in meta.get('must_probe', []) if not probes.get(p)]
    for i, sc, r in errors[:3]:
        lines.append('HARNESS-ERROR run %d: %s\n%s' % (i, r.get('error'), r.get('trace', '')[-1500:]))
    ev = {
        'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration', 'wall_s': round(wall, 2),
        'violations': len(fresh),
        'coverage': {
            'evaluations': len(recs),
            'distinct_nontrivial': len(nontriv),
            'rule': meta['rule'],
            'samples': [sc for _, sc, _ in ok[:2]],
            'simulated_runs_and_seeds_per_hour': int(len(recs) / max(wall, 1e-3) * 3600),
            'seed_note': 'every run has its own seed (base seed, property, run index)',
            'simulated_time': dict(simtime, traced_source_lines=steps),
            'faults_injected': counts,
            'distinct_states': len(states),
            'state_measure': meta['measure'],
            'probes': probes,
            'probes_never_hit': dead_probes,
            'runs_requested': nruns,
            'stopped_by_wall_cap': len(recs) < nruns,
            'harness_errors': len(errors),
            'known_finding_runs': sum(len(v) for v in seen_known.values()),
            'components_real': meta['real'],
            'components_stub': meta['stub'],
            'determinism_rerun': {'runs': sorted(rerecs), 'other_hash_seed_and_heap': True, 'mismatches': mism},
        },
        'assumptions': meta.get('assumptions', []),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
    print('%s %s seed=%d: %d runs (%d non-trivial distinct, %d states) in %.1f s, faults %s, probes %s' % (
        prop, a.tier, a.seed, len(recs), len(nontriv), len(states), wall, json.dumps(counts, sort_keys=True),
        json.dumps(probes, sort_keys=True)))
    if dead_probes:
        print('NOTE: probes never hit: %s' % dead_probes)
    for l in lines:
        print(l)
    return rc


if __name__ == '__main__':
    reexec()
    sys.exit(main())
