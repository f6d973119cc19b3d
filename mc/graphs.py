"""Reference model of the weighted graphs (plain Python / numpy)."""

import itertools
import math
import numpy as np


def gen(*idx):
    'A generic value in (0.1, 0.9), different for (almost) every index.'
    x = 0.0
    for k, i in enumerate(idx):
        x += (i + 1) * (0.6180339887498949, 0.4142135623730951,
                        0.7320508075688772, 0.2360679774997896)[k % 4]
    x = x * 1.3247179572447460
    return 0.1 + 0.8 * (x - math.floor(x))


class RefGraph:
    'States: list of (name, pdf_id or None); arcs: dict (s, e) -> weight.'

    def __init__(self, states, arcs, start, end):
        self.pdf = dict(states)
        self.order = [s for s, _ in states]
        self.arcs = dict(arcs)
        self.start, self.end = start, end

    def out(self, s):
        return [(e, w) for (a, e), w in self.arcs.items() if a == s]

    def inc(self, s):
        return [(a, w) for (a, e), w in self.arcs.items() if e == s]

    def has_eps_cycle(self):
        eps = [s for s in self.order if self.pdf[s] is None]
        color = {}

        def visit(s):
            color[s] = 1
            for e, _ in self.out(s):
                if self.pdf[e] is None:
                    if color.get(e) == 1 or (e not in color and visit(e)):
                        return True
            color[s] = 2
            return False
        return any(s not in color and visit(s) for s in eps)

    def forward_eps(self, s):
        'Total weight from s to every emitting state (non emitting between).'
        tot = {}
        for e, w in self.out(s):
            if self.pdf[e] is not None:
                tot[e] = tot.get(e, 0.) + w
            else:
                for f, v in self.forward_eps(e).items():
                    tot[f] = tot.get(f, 0.) + w * v
        return tot

    def backward_eps(self, s):
        tot = {}
        for a, w in self.inc(s):
            if self.pdf[a] is not None:
                tot[a] = tot.get(a, 0.) + w
            else:
                for f, v in self.backward_eps(a).items():
                    tot[f] = tot.get(f, 0.) + w * v
        return tot

    def reach(self, s):
        'Emitting states reachable through non emitting states only.'
        seen, todo, found = set(), [s], set()
        while todo:
            for e, w in self.out(todo.pop()):
                if w == 0:
                    continue
                if self.pdf[e] is not None:
                    found.add(e)
                elif e not in seen:
                    seen.add(e)
                    todo.append(e)
        return found

    def reach_back(self, s):
        seen, todo, found = set(), [s], set()
        while todo:
            for e, w in self.inc(todo.pop()):
                if w == 0:
                    continue
                if self.pdf[e] is not None:
                    found.add(e)
                elif e not in seen:
                    seen.add(e)
                    todo.append(e)
        return found

    def compiled(self):
        emit = [s for s in self.order if self.pdf[s] is not None]
        idx = {s: i for i, s in enumerate(emit)}
        n = len(emit)
        init, final, trans = np.zeros(n), np.zeros(n), np.zeros((n, n))
        for s, w in self.forward_eps(self.start).items():
            init[idx[s]] = w
        for s, w in self.backward_eps(self.end).items():
            final[idx[s]] = w
        for s in emit:
            for e, w in self.forward_eps(s).items():
                trans[idx[s], idx[e]] = w
        raw = trans.copy()
        for i in range(n):
            loop, rest = trans[i, i], trans[i].sum() - trans[i, i]
            if loop > 0 and rest > 0:
                for j in range(n):
                    if j != i:
                        trans[i, j] = trans[i, j] * (1 - loop) / rest
        return init / init.sum(), final / final.sum(), trans, \
            [self.pdf[s] for s in emit], raw

    def language(self, maxlen):
        'Weight of every emitted sequence of states up to a length.'
        lang = {}

        def walk(s, seq, w):
            if self.pdf[s] is not None:
                seq = seq + (s,)
                if len(seq) > maxlen:
                    return
            if s == self.end:
                lang[seq] = lang.get(seq, 0.) + w
            for e, v in self.out(s):
                if v:
                    walk(e, seq, w * v)
        walk(self.start, (), 1.)
        return lang


def build(graph_cls, ref, order=None):
    'Build the real graph from its description; returns (graph, name -> id).'
    g = graph_cls()
    ids = {}
    for s in (order or ref.order):
        ids[s] = g.add_state(pdf_id=ref.pdf[s])
    for (a, e), w in ref.arcs.items():
        g.add_arc(ids[a], ids[e], w)
    g.start_state, g.end_state = ids[ref.start], ids[ref.end]
    return g, ids


def read(g):
    'Read back a real graph through its public interface.'
    states = [(s, g.state_from_id(s).pdf_id) for s in g.states()]
    arcs = {}
    for a in g.arcs():
        if (a.start, a.end) in arcs:
            raise AssertionError(f'arc {a.start}->{a.end} listed twice')
        arcs[(a.start, a.end)] = a.weight
    return RefGraph(states, arcs, g.start_state, g.end_state)


# --------------------------------------------------------------------------
# Brute force inference over all the state paths.

def all_paths(init, final, trans, llhs):
    '''All paths with a non zero weight: (paths [P, T], log-weights [P]).'''
    T, n = llhs.shape
    with np.errstate(divide='ignore'):
        li, lf, lt = np.log(init), np.log(final), np.log(trans)
    paths = np.array(list(itertools.product(range(n), repeat=T)), dtype=int)
    w = li[paths[:, 0]] + llhs[0, paths[:, 0]]
    for t in range(1, T):
        w = w + lt[paths[:, t - 1], paths[:, t]] + llhs[t, paths[:, t]]
    w = w + lf[paths[:, -1]]
    keep = np.isfinite(w)
    return paths[keep], w[keep]


def sparse_paths(init, final, trans, llhs, limit=200000):
    '''As `all_paths`, following the transitions of the graph only (for
    long utterances and large graphs with few paths).'''
    T, n = llhs.shape
    succ = [np.nonzero(trans[i])[0] for i in range(n)]
    # alive[t][i]: the end can be reached with T - 1 - t steps left.
    alive = [final > 0]
    for _ in range(T - 1):
        alive.append(((trans > 0) & alive[-1][None, :]).any(1))
    alive = alive[::-1]
    paths = [[i] for i in np.nonzero((init > 0) & alive[0])[0]]
    for t in range(1, T):
        paths = [p + [j] for p in paths for j in succ[p[-1]] if alive[t][j]]
        assert len(paths) <= limit
    paths = np.array(paths, dtype=int).reshape(-1, T)
    if len(paths) == 0:
        return paths, np.zeros(0)
    w = np.log(init[paths[:, 0]]) + llhs[0, paths[:, 0]]
    for t in range(1, T):
        w = w + np.log(trans[paths[:, t - 1], paths[:, t]]) + \
            llhs[t, paths[:, t]]
    return paths, w + np.log(final[paths[:, -1]])


def brute_posteriors(init, final, trans, llhs, enum=None):
    T, n = llhs.shape
    paths, w = (enum or all_paths)(init, final, trans, llhs)
    if len(w) == 0:
        return None
    m = w.max()
    logp = m + np.log(np.exp(w - m).sum())
    p = np.exp(w - logp)
    post = np.zeros((T, n))
    xi = np.zeros((T - 1, n, n))
    for t in range(T):
        np.add.at(post[t], paths[:, t], p)
        if t:
            np.add.at(xi[t - 1], (paths[:, t - 1], paths[:, t]), p)
    return post, xi, logp, paths, w


def llh_pattern(kind, T, n):
    x = np.array([[gen(t, i, 2) * 4 - 3 for i in range(n)] for t in range(T)])
    if kind == 'generic':
        return x
    if kind == 'flat':
        return np.zeros((T, n)) - 1.
    if kind == 'low':           # exp() underflows, even in double precision
        return x - 900. * (1 + np.arange(T)[:, None])
    if kind == 'high':          # exp() overflows
        return x + 800.
    if kind == 'spiky':         # one state hugely better on each frame
        y = x.copy()
        for t in range(T):
            y[t, (2 * t) % n] += 60.
        return y
    if kind == 'cliff':         # states which are (almost) impossible
        y = x.copy()
        for t in range(T):
            y[t, (t + 1) % n] -= 20000.
        return y
    raise KeyError(kind)


def supports(n, minimum=1):
    for mask in range(minimum, 1 << n):
        yield mask


def mask_vec(mask, n, salt):
    return np.array([gen(i, salt) if mask >> i & 1 else 0. for i in range(n)])


def mask_mat(mask, n, salt=5, sub=0.9):
    a = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if mask >> (i * n + j) & 1:
                a[i, j] = gen(i, j, salt)
        if a[i].sum() > 0:
            a[i] *= sub / a[i].sum()
    return a
