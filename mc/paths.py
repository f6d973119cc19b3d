"""Reference inference over the paths of a sparse state machine (float64)."""
import numpy as np


def _logs(init, final, trans):
    with np.errstate(divide='ignore'):
        return np.log(init), np.log(final), np.log(trans)


def best(init, final, trans, llhs, margin=1e-3):
    '''All the paths with a score within `margin` of the best one: branch and
    bound with the exact score of the best completion.'''
    T, n = llhs.shape
    li, lf, lt = _logs(init, final, trans)
    todo = np.zeros((T, n))         # best completion after frame t
    todo[-1] = lf
    for t in range(T - 2, -1, -1):
        todo[t] = (lt + (llhs[t + 1] + todo[t + 1])[None]).max(axis=1)
    first = li + llhs[0]
    top = (first + todo[0]).max()
    if not np.isfinite(top):
        return [], top
    out = []

    def walk(path, score):
        t = len(path) - 1
        if t == T - 1:
            out.append(path)
            return
        nxt = score + lt[path[-1]] + llhs[t + 1]
        for s in np.flatnonzero(nxt + todo[t + 1] >= top - margin):
            walk(path + (int(s),), nxt[s])
    for s in np.flatnonzero(first + todo[0] >= top - margin):
        walk((int(s),), first[s])
    return out, top


def _lse(x, axis):
    m = x.max(axis=axis, keepdims=True)
    m = np.where(np.isfinite(m), m, 0.)
    with np.errstate(divide='ignore'):
        return np.log(np.exp(x - m).sum(axis=axis)) + m.squeeze(axis)


def posteriors(init, final, trans, llhs):
    'State posteriors, transition posteriors, log-probability.'
    T, n = llhs.shape
    li, lf, lt = _logs(init, final, trans)
    a = np.zeros((T, n))
    b = np.zeros((T, n))
    a[0] = li + llhs[0]
    for t in range(1, T):
        a[t] = _lse(a[t - 1][:, None] + lt, 0) + llhs[t]
    b[-1] = lf
    for t in range(T - 2, -1, -1):
        b[t] = _lse(lt + (llhs[t + 1] + b[t + 1])[None], 1)
    logp = _lse(a[-1] + b[-1], 0)
    xi = np.array([np.exp(a[t][:, None] + lt + (llhs[t + 1] + b[t + 1])[None]
                          - logp) for t in range(T - 1)]).reshape(-1, n, n)
    return np.exp(a + b - logp), xi, float(logp)


def units_of(path, starts, per_frame):
    'Units of a path given as emission ids (first emission -> unit).'
    out, prev = [], None
    for s in path:
        if s != prev and s in starts:
            out.append(starts[s])
        elif per_frame:
            out.append(out[-1])
        prev = s
    return out
