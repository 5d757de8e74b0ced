"""Convolutional codes: independent encoder, error-event search on the difference trellis, fault patterns.

Nothing here uses the library's trellis tables: the code is stepped from its polynomials.
"""
INF = float('inf')

# (memory, g, feedback) in MSB notation (bit d of a number is the coefficient of D^d)
CODES = [
    {'mem': [2], 'g': [[5, 7]], 'fb': None},
    {'mem': [1], 'g': [[1, 3]], 'fb': None},
    {'mem': [1], 'g': [[2, 3]], 'fb': None},
    {'mem': [3], 'g': [[0o15, 0o17]], 'fb': None},
    {'mem': [4], 'g': [[0o23, 0o35]], 'fb': None},
    {'mem': [2], 'g': [[5, 7, 7]], 'fb': None},
    {'mem': [3], 'g': [[0o13, 0o15, 0o17]], 'fb': None},
    {'mem': [2], 'g': [[5, 7, 7, 5]], 'fb': None},
    {'mem': [2], 'g': [[1, 7]], 'fb': [[5]]},
    {'mem': [2], 'g': [[1, 5]], 'fb': [[7]]},
    {'mem': [3], 'g': [[1, 0o15]], 'fb': [[0o13]]},
    {'mem': [3], 'g': [[1, 0o17, 0o13]], 'fb': [[0o15]]},
    {'mem': [2, 1], 'g': [[5, 7, 0], [0, 2, 3]], 'fb': None},
    {'mem': [1, 1], 'g': [[3, 2, 3], [2, 1, 1]], 'fb': None},
    {'mem': [1, 1], 'g': [[1, 0, 3], [0, 1, 2]], 'fb': [[3, 0], [0, 3]]},
    {'mem': [1, 1], 'g': [[1, 0, 0], [0, 1, 3]], 'fb': [[2, 2], [3, 1]]},
    {'mem': [1, 2], 'g': [[3, 1, 0, 2], [0, 7, 5, 4]], 'fb': None},
    {'mem': [0, 1], 'g': [[1, 0, 0], [0, 3, 1]], 'fb': None},
    {'mem': [1, 1, 1], 'g': [[3, 0, 1, 2], [0, 3, 1, 1], [1, 2, 3, 0]], 'fb': None},
]


def wt(x):
    return bin(x).count('1')


def rev(x, width):
    return int(bin(x)[2:].zfill(width)[::-1], 2)


def gen_code(r, max_states=16, ks=(1, 2, 3)):
    """A code: listed good ones, or random polynomials."""
    if r.random() < 0.55:
        cand = [c for c in CODES if 2 ** sum(c['mem']) <= max_states and len(c['g']) in ks]
        c = dict(r.choice(cand))
    else:
        k = r.choice([x for x in (1, 1, 1, 1, 2) if x in ks])
        n = r.choice([k + 1, k + 1, k + 2])
        while True:
            mem = [r.choice([1, 2, 3, 4] if k == 1 else [1, 2]) for _ in range(k)]
            if 2 ** sum(mem) <= max_states:
                break
        m = max(mem)
        g = [[r.randrange(2 ** (mem[i] + 1)) for _ in range(n)] for i in range(k)]
        for i in range(k):                                   # every line reaches some output at both ends
            g[i][r.randrange(n)] |= 1
            g[i][r.randrange(n)] |= 1 << mem[i]
        fb = None
        if r.random() < 0.4:
            fb = [[0] * k for _ in range(k)]
            for i in range(k):
                fb[i][i] = 1 | (r.randrange(2 ** mem[i]) << 1 if k == 1 else r.randrange(2 ** (mem[i] + 1)) & ~1)
        c = {'mem': mem, 'g': g, 'fb': fb}
    c['fmt'] = r.choice(['MSB', 'MSB', 'LSB', 'Matlab'])
    c['style'] = 'matrix'
    if c['fb'] is not None and len(c['g']) == 1 and c['g'][0][0] == 1 and c['fb'][0][0] & 1 and \
            all(x & 1 for x in c['g'][0]) and r.random() < 0.5:
        c['style'] = 'legacy'
    c['type'] = 'rsc' if c['fb'] is not None and (c['style'] == 'legacy' or r.random() < 0.6) else 'default'
    return c


class Code:
    """Steps the encoder of a code description from its polynomials."""

    def __init__(self, c):
        self.c = c
        self.mem = c['mem']
        self.k = len(c['g'])
        self.n = len(c['g'][0])
        self.g = c['g']
        self.fb = c['fb'] or [[1 if i == j else 0 for j in range(self.k)] for i in range(self.k)]
        self.total = sum(self.mem)
        self.legacy = c.get('style') == 'legacy'
        self.cache = {}

    def zero(self):
        return tuple(tuple([0] * m) for m in self.mem)

    def step(self, state, u):
        """state: per line, newest first.  u: tuple of k bits.  -> (next state, output bits)"""
        key = (state, u)
        if key in self.cache:
            return self.cache[key]
        regs = [(u[i],) + state[i] for i in range(self.k)]
        if self.legacy:                                       # true systematic recursive encoder, k = 1
            f = self.fb[0][0]
            w = (u[0] + sum((f >> d & 1) * regs[0][d] for d in range(1, self.mem[0] + 1))) % 2
            full = (w,) + state[0]
            out = [u[0]] + [sum((self.g[0][j] >> d & 1) * full[d] for d in range(self.mem[0] + 1)) % 2
                            for j in range(1, self.n)]
            nxt = (full[:self.mem[0]],)
        else:
            out = [sum((self.g[i][j] >> d & 1) * regs[i][d] for i in range(self.k) for d in range(self.mem[i] + 1)) % 2
                   for j in range(self.n)]
            heads = [sum((self.fb[l][i] >> d & 1) * regs[i][d] for i in range(self.k) for d in range(self.mem[i] + 1)) % 2
                     for l in range(self.k)]
            nxt = tuple(((heads[i],) + state[i])[:self.mem[i]] for i in range(self.k))
        res = (nxt, tuple(out))
        self.cache[key] = res
        return res

    def inputs(self):
        return [tuple(x >> (self.k - 1 - i) & 1 for i in range(self.k)) for x in range(2 ** self.k)]

    def encode(self, bits, state=None):
        s = state or self.zero()
        out = []
        for t in range(len(bits) // self.k):
            s, o = self.step(s, tuple(int(b) for b in bits[t * self.k:(t + 1) * self.k]))
            out.extend(o)
        return out, s

    def proper(self):
        """Every state is reached from exactly 2^k (state, input) pairs and zeros keep the zero state."""
        if self.step(self.zero(), (0,) * self.k) != (self.zero(), (0,) * self.n):
            return False
        cnt = {}
        for s in self.states():
            for u in self.inputs():
                t = self.step(s, u)[0]
                cnt[t] = cnt.get(t, 0) + 1
        return len(cnt) == 2 ** self.total and set(cnt.values()) == {2 ** self.k}

    def states(self):
        out = [()]
        for m in self.mem:
            out = [s + (tuple(x >> (m - 1 - i) & 1 for i in range(m)),) for s in out for x in range(2 ** m)]
        return out

    def tables(self):
        """Dense tables with own numbering (zero state = 0)."""
        st = self.states()
        idx = {s: i for i, s in enumerate(st)}
        nxt, out = [], []
        for s in st:
            nxt.append([idx[self.step(s, u)[0]] for u in self.inputs()])
            out.append([self.step(s, u)[1] for u in self.inputs()])
        return nxt, out

    def trellis(self, np, cc):
        c = self.c
        fmt = c['fmt']
        width = max(self.mem) + 1
        conv = (lambda x: x) if fmt == 'MSB' or self.legacy else (lambda x: rev(x, width))
        g = np.array([[conv(x) for x in row] for row in c['g']])
        mem = np.array(self.mem)
        if self.legacy:
            # this interface reads polynomials with the undelayed coefficient first
            w = self.mem[0] + 1
            g = np.array([[rev(x, w) for x in c['g'][0]]])
            return cc.Trellis(mem, g, rev(c['fb'][0][0], w), 'rsc')
        fb = None if c['fb'] is None else np.array([[conv(x) for x in row] for row in c['fb']])
        return cc.Trellis(mem, g, fb, c['type'], fmt)


def margin(np, code, v, n_data, depth, n_steps):
    """v: advantage of the true symbol at each received position ((n_steps x n) array; negative where faulty).

    Returns the smallest total advantage of the true path over any competing error event that a decoder with the given
    traceback depth can take: events starting in data steps 1..n_data that have merged again, or that are still apart
    when the decision on their first step becomes final.
    """
    nxt, out = code.tables()
    nS, nI = len(nxt), len(nxt[0])
    nxt = np.array(nxt)
    outs = np.array(out, dtype=float)                 # S x I x n
    pred = [[] for _ in range(nS)]
    for s in range(nS):
        for i in range(nI):
            pred[nxt[s, i]].append((s, i))
    pS = np.array([[p[0] for p in ps] for ps in pred])
    pI = np.array([[p[1] for p in ps] for ps in pred])
    cost = np.full((n_data, nS), np.inf)              # events by starting step, still apart
    best = np.inf
    for t in range(1, n_steps + 1):
        bm = outs @ v[t - 1]                          # S x I
        ext = cost.copy()
        ext[:, 0] = np.inf                            # merged events are closed
        new = (ext[:, pS] + bm[pS, pI][None]).min(2)
        if t <= n_data:
            row = np.full(nS, np.inf)
            for i in range(1, nI):
                row[nxt[0, i]] = min(row[nxt[0, i]], bm[0, i])
            new[t - 1] = row
        merged = new[:, 0].min()
        best = min(best, merged)
        final = min(n_data, t if t == n_steps else t - depth + 2)     # starts whose decision is final at time t
        if final >= 1:
            rest = new[:final, 1:]
            if rest.size:
                best = min(best, rest.min())
        cost = new
    return float(best)


def best_path(np, code, metrics, start=0):
    """Smallest total of metrics[t][(state, input)] (n_steps x S x I) over all paths from the zero state."""
    nxt, _ = code.tables()
    nxt = np.array(nxt)
    nS = len(nxt)
    cost = np.full(nS, np.inf)
    cost[start] = 0
    for m in metrics:
        tot = cost[:, None] + m
        new = np.full(nS, np.inf)
        np.minimum.at(new, nxt.reshape(-1), tot.reshape(-1))
        cost = new
    return cost


def min_event(code, max_len=40, first=None):
    """A lightest non-zero path leaving and re-entering the zero state: (weight, list of output tuples) or None."""
    import heapq
    zero = code.zero()
    heap = []
    n = 0
    for u in code.inputs():
        if any(u):
            s, o = code.step(zero, u)
            n += 1
            heapq.heappush(heap, (sum(o), 1, n, s, (o,)))
    seen = {}
    while heap:
        w, ln, _, s, outs = heapq.heappop(heap)
        if s == zero:
            return w, outs
        if ln >= max_len or seen.get(s, (INF,)) <= (w,):
            continue
        seen[s] = (w,)
        for u in code.inputs():
            s2, o = code.step(s, u)
            n += 1
            heapq.heappush(heap, (w + sum(o), ln + 1, n, s2, outs + (o,)))
    return None


def library_steps(code, n_coded):
    """Trellis steps walked by the decoder for a stream of n_coded values: data steps, then known-termination steps."""
    L = n_coded // code.n * code.k
    return max((L + code.total) // code.k - 1, L // code.k)


def true_values(code, coded, state, n_steps):
    """Code bits of the true path over the decoding window (the best continuation with zero inputs after the data)."""
    bits = list(coded)
    while len(bits) < n_steps * code.n:
        state, o = code.step(state, (0,) * code.k)
        bits.extend(o)
    return bits


def advantage(np, dtype_kind, rx, true_bits, n, n_steps):
    """Per-position advantage of the true bit for the received values (pads included)."""
    v = np.zeros(n_steps * n)
    x = 2.0 * np.array(true_bits[:n_steps * n]) - 1
    r = np.zeros(n_steps * n)
    r[:len(rx)] = np.asarray(rx, dtype=float)
    if dtype_kind == 'hard':
        v[:] = (2 * r - 1) * x
    elif dtype_kind == 'unquantized':
        r[len(rx):] = -1
        v[:] = r * x
    else:
        v[:] = np.clip(r, -500, 500) * x
    return v.reshape(n_steps, n)


def costs(np, code, kind, rx, n_steps):
    """Metric of every branch at every step as the decoder is documented to use it (n_steps x S x I)."""
    _, out = code.tables()
    o = np.array(out)
    n = code.n
    r = np.zeros(n_steps * n)
    r[:len(rx)] = np.asarray(rx, dtype=float)
    if kind == 'unquantized':
        r[len(rx):] = -1
    ms = []
    for t in range(n_steps):
        rt = r[t * n:(t + 1) * n]
        if kind == 'hard':
            m = (o != rt[None, None]).sum(2).astype(float)
        elif kind == 'unquantized':
            m = ((rt[None, None] - (2 * o - 1)) ** 2).sum(2)
        else:
            q = np.clip(rt, -500, 500)
            m = np.logaddexp(0, np.where(o == 1, -q, q)).sum(2)
        ms.append(m)
    return ms


def path_cost(np, code, metrics, bits):
    """(total of the path with these inputs, final state index) over len(bits)/k steps."""
    nxt, _ = code.tables()
    s = 0
    tot = 0.0
    for t in range(len(bits) // code.k):
        u = 0
        for b in bits[t * code.k:(t + 1) * code.k]:
            u = 2 * u + int(b)
        tot += metrics[t][s, u]
        s = nxt[s][u]
    return tot, s


def place_faults(np, code, coded, faults, kind, amp_of):
    """Received samples after the listed faults: [position, 'flip'|'erase'|'weak'|'jam', strength]."""
    x = 2.0 * np.array(coded, dtype=float) - 1
    rx = np.array([amp_of(i) for i in range(len(coded))]) * x
    for pos, what, strength in faults:
        if not len(coded):
            break
        i = pos % len(coded)
        if what == 'flip':
            rx[i] = -abs(rx[i]) * x[i]
        elif what == 'jam' and kind == 'unquantized':
            rx[i] = abs(strength) * x[i]
        elif what == 'erase' and kind != 'hard':
            rx[i] = 0
        elif what == 'weak' and kind != 'hard':
            rx[i] = x[i] * abs(rx[i]) * strength
    return rx
