"""Design files: random parity-check matrices, an independent file writer, code extraction from loaded parameters."""
import os
import random


def gen_matrix(r, square_inv=False, big=False):
    """Random parity-check matrix as a list of rows (lists of column indexes); no empty row or column."""
    nc = r.randrange(1, 7 if not big else 14)
    nv = nc + r.randrange(0 if not square_inv else 1, 9 if not big else 25)
    rows = [set() for _ in range(nc)]
    if square_inv:
        k = nv - nc
        for i in range(nc):
            rows[i].add(k + i)
            for j in range(i):
                if r.random() < 0.3:
                    rows[i].add(k + j)
        for v in range(k):
            for c in r.sample(range(nc), min(nc, r.choice([1, 2, 2, 3]))):
                rows[c].add(v)
    else:
        style = r.choice(['sparse', 'dense', 'regular1'])
        for v in range(nv):
            if style == 'dense':
                cs = [c for c in range(nc) if r.random() < 0.6]
            elif style == 'regular1':
                cs = [v % nc]
            else:
                cs = r.sample(range(nc), min(nc, r.choice([1, 2, 3])))
            for c in cs or [r.randrange(nc)]:
                rows[c].add(v)
        for c in range(nc):
            if not rows[c]:
                rows[c].add(r.randrange(nv))
    return {'nv': nv, 'rows': [sorted(x) for x in rows]}


def to_array(np, m, dtype='int64'):
    a = np.zeros((len(m['rows']), m['nv']), dtype)
    for i, row in enumerate(m['rows']):
        a[i, row] = 1
    return a


def edges_of(m):
    return (m['nv'], len(m['rows']), frozenset((i, v) for i, row in enumerate(m['rows']) for v in row))


def text_of(m, trailing=True):
    """The documented file format, written independently of the library."""
    nv, rows = m['nv'], m['rows']
    cols = [[i for i, row in enumerate(rows) if v in row] for v in range(nv)]
    out = '%d %d\n%d %d\n' % (nv, len(rows), max(map(len, cols)), max(map(len, rows)))
    out += ''.join('%d ' % len(c) for c in cols) + '\n'
    out += ''.join('%d ' % len(c) for c in rows) + '\n'
    for c in cols:
        out += '\t'.join(str(x + 1) for x in c) + '\n'
    for c in rows:
        out += '\t'.join(str(x + 1) for x in c) + '\n'
    return out + ('\n' if trailing else '')


def code_of(np, p):
    """(n_vnodes, n_cnodes, edges) as seen from the checks, and the same from the variables."""
    nv, nc = int(p['n_vnodes']), int(p['n_cnodes'])
    ca = np.asarray(p['cnode_adj_list']).reshape(nc, int(p['max_cnode_deg']))
    va = np.asarray(p['vnode_adj_list']).reshape(nv, int(p['max_vnode_deg']))
    cd = np.asarray(p['cnode_deg_list'])
    vd = np.asarray(p['vnode_deg_list'])
    ec = frozenset((c, int(v)) for c in range(nc) for v in ca[c, :cd[c]])
    ev = frozenset((int(c), v) for v in range(nv) for c in va[v, :vd[v]])
    return (nv, nc, ec), (nv, nc, ev)


def maps_ok(np, p):
    nv, nc = int(p['n_vnodes']), int(p['n_cnodes'])
    mc, mv = int(p['max_cnode_deg']), int(p['max_vnode_deg'])
    ca = np.asarray(p['cnode_adj_list']).reshape(nc, mc)
    va = np.asarray(p['vnode_adj_list']).reshape(nv, mv)
    cm = np.asarray(p['cnode_vnode_map']).reshape(nc, mc)
    vm = np.asarray(p['vnode_cnode_map']).reshape(nv, mv)
    for c in range(nc):
        for i in range(int(p['cnode_deg_list'][c])):
            if va[ca[c, i], cm[c, i]] != c:
                return False
    for v in range(nv):
        for i in range(int(p['vnode_deg_list'][v])):
            if ca[va[v, i], vm[v, i]] != v:
                return False
    return True


def rewrite_cost_dir():
    d = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), 'disk-%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def cleanup(d):
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isfile(p) or os.path.islink(p):
            os.unlink(p)
    os.rmdir(d)


def gen_plan(r, n, max_gap):
    return [[r.choice([1, 2, 3, r.randrange(1, max_gap)]), r.randrange(6)] for _ in range(n)]
