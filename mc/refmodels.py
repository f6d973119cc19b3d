"""Reference models (numpy, float64, standard parameterizations) of the
Bayesian models: Normal sets, mixtures, hidden Markov models, phone-loops."""
import copy
import numpy as np
from scipy.special import digamma, gammaln, multigammaln
from mc import paths as D
from mc.core import tonp


def row(x):
    x = tonp(x)
    return x.reshape(len(x), -1) if x.ndim > 1 else x.reshape(1, -1)


class RefNormals:
    """K independent Normals with a conjugate prior; coordinates
    e = (k m, k, q, s) with
      isotropic: q = b + k |m|^2 / 2,        s = a
      diagonal:  q_i = b_i + k m_i^2 / 2,    s = a
      full:      q = inv(W) + k m m^T,       s = v."""

    def __init__(self, cov, prior, post):
        self.cov = cov
        self.prior = self._enc(*prior)
        self.post = self._enc(*post)

    @classmethod
    def read(cls, cov, param):
        'From the standard parameters of a real parameter.'
        return cls(cov, cls.std_of(cov, param.prior),
                   cls.std_of(cov, param.posterior))

    @staticmethod
    def std_of(cov, dist):
        p = dist.params
        m = tonp(p.mean)
        single = m.ndim == 1
        if single:
            m = m[None]
        K, d = m.shape
        k = tonp(p.scale).reshape(K)
        if cov == 'isotropic':
            return m, k, tonp(p.shape).reshape(K), tonp(p.rate).reshape(K)
        if cov == 'diagonal':
            return m, k, tonp(p.shape).reshape(K), tonp(p.rates).reshape(K, d)
        return m, k, tonp(p.scale_matrix).reshape(K, d, d), \
            tonp(p.dof).reshape(K)

    def _enc(self, m, k, x, y):
        if self.cov == 'isotropic':
            a, b = x, y
            return [k[:, None] * m, k, b + .5 * k * (m ** 2).sum(1), a]
        if self.cov == 'diagonal':
            a, b = x, y
            return [k[:, None] * m, k, b + .5 * k[:, None] * m ** 2, a]
        W, v = x, y
        q = np.linalg.inv(W) + k[:, None, None] * m[:, :, None] * m[:, None]
        return [k[:, None] * m, k, q, v]

    def std(self, which='post'):
        km, k, q, s = getattr(self, which)
        m = km / k[:, None]
        if self.cov == 'isotropic':
            return m, k, s, q - .5 * k * (m ** 2).sum(1)
        if self.cov == 'diagonal':
            return m, k, s, q - .5 * k[:, None] * m ** 2
        return m, k, np.linalg.inv(
            q - k[:, None, None] * m[:, :, None] * m[:, None]), s

    def ellh(self, X):
        'Expected log-likelihood [T, K].'
        m, k, x, y = self.std()
        d = m.shape[1]
        diff = X[:, None] - m[None]
        if self.cov == 'isotropic':
            logdet = d * (digamma(x) - np.log(y))
            quad = (x / y) * (diff ** 2).sum(-1)
        elif self.cov == 'diagonal':
            logdet = (digamma(x)[:, None] - np.log(y)).sum(-1)
            quad = ((x[:, None] / y) * diff ** 2).sum(-1)
        else:
            logdet = digamma(.5 * (y[:, None] - np.arange(d))).sum(-1) \
                + d * np.log(2) + np.linalg.slogdet(x)[1]
            quad = y * np.einsum('tki,kij,tkj->tk', diff, x, diff)
        return .5 * (logdet - d * np.log(2 * np.pi) - d / k - quad)

    def stats(self, X, r):
        'Statistics of the data X [T, D] with responsibilities r [T, K].'
        n = r.sum(0)
        if self.cov == 'isotropic':
            q = .5 * r.T @ (X ** 2).sum(1)
            s = .5 * X.shape[1] * n
        elif self.cov == 'diagonal':
            q = .5 * r.T @ X ** 2
            s = .5 * n
        else:
            q = np.einsum('tk,ti,tj->kij', r, X, X)
            s = n
        return [r.T @ X, n, q, s]

    def update(self, stats, lrate=1.):
        self.post = [(1 - lrate) * o + lrate * (p + s) for o, p, s in
                     zip(self.post, self.prior, stats)]

    def kl(self):
        'KL(posterior || prior), one per component.'
        m, k, x, y = self.std('post')
        m0, k0, x0, y0 = self.std('prior')
        d = m.shape[1]
        diff = m - m0
        if self.cov == 'full':
            W, v, W0, v0 = x, y, x0, y0
            prec = v[:, None, None] * W
            kln = .5 * (d * (k0 / k - 1 + np.log(k / k0)) + k0 * np.einsum(
                'ki,kij,kj->k', diff, prec, diff))
            l, l0 = np.linalg.slogdet(W)[1], np.linalg.slogdet(W0)[1]
            dg = digamma(.5 * (v[:, None] - np.arange(d))).sum(-1)
            elog = dg + d * np.log(2) + l
            iw0 = np.linalg.inv(W0)
            tr = v * np.einsum('kij,kji->k', iw0, W)

            def logb(l, v):
                return -.5 * v * l - .5 * v * d * np.log(2) - np.array(
                    [multigammaln(.5 * vi, d) for vi in v])
            return kln + logb(l, v) - logb(l0, v0) + \
                .5 * (v - v0) * elog - .5 * v * d + .5 * tr
        a, b, a0, b0 = x, y, x0, y0
        if self.cov == 'isotropic':
            prec = a / b
            kln = .5 * (d * (k0 / k - 1 + np.log(k / k0))
                        + k0 * prec * (diff ** 2).sum(1))
            return kln + gkl(a, b, a0, b0)
        prec = a[:, None] / b
        kln = .5 * (d * (k0 / k - 1 + np.log(k / k0))
                    + k0 * (prec * diff ** 2).sum(1))
        return kln + gkl(a[:, None], b, a0[:, None], b0).sum(1)


def gkl(a, b, a0, b0):
    'KL between two Gamma (shape, rate).'
    return (a - a0) * digamma(a) - gammaln(a) + gammaln(a0) \
        + a0 * (np.log(b) - np.log(b0)) + a * (b0 - b) / b


def dirkl(c, c0):
    t = c.sum(-1)
    return gammaln(t) - gammaln(c).sum(-1) - gammaln(c0.sum(-1)) \
        + gammaln(c0).sum(-1) + ((c - c0) * (
            digamma(c) - digamma(t)[..., None])).sum(-1)


def lse(x, axis=-1):
    m = x.max(axis=axis, keepdims=True)
    return np.log(np.exp(x - m).sum(axis)) + m.squeeze(axis)


class RefMixtures:
    'S mixtures of C Normals each.'

    def __init__(self, normals, conc_prior, conc_post):
        self.normals = normals
        self.prior = np.array(conc_prior, dtype=float)
        self.post = np.array(conc_post, dtype=float)

    @classmethod
    def read(cls, cov, mixset):
        w = mixset.categoricalset.weights
        return cls(RefNormals.read(cov, mixset.modelset.means_precisions),
                   row(w.prior.params.concentrations),
                   row(w.posterior.params.concentrations))

    def elog(self):
        return digamma(self.post) - digamma(self.post.sum(-1, keepdims=True))

    def joint(self, X):
        return self.normals.ellh(X).reshape(len(X), *self.post.shape) \
            + self.elog()

    def llh(self, X):
        return lse(self.joint(X))

    def stats(self, X, r):
        'r: [T, S] weights of the mixtures.'
        j = self.joint(X)
        q = np.exp(j - lse(j)[..., None]) * r[..., None]
        return self.normals.stats(X, q.reshape(len(X), -1)), q.sum(0)

    def update(self, stats, lrate=1.):
        self.normals.update(stats[0], lrate)
        self.post = (1 - lrate) * self.post + lrate * (self.prior + stats[1])

    def kl(self):
        return self.normals.kl().sum() + dirkl(self.post, self.prior).sum()


def add(a, b):
    if isinstance(a, (list, tuple)):
        return [add(x, y) for x, y in zip(a, b)]
    return a + b


def mul(c, a):
    if isinstance(a, (list, tuple)):
        return [mul(c, x) for x in a]
    return c * a


class RefLoop:
    'Phone-loop: emissions, graph and weights of the units.'

    def __init__(self, model, weights, covs):
        sub = model.modelset.original_modelset
        sets = sub.modelsets if hasattr(sub, 'modelsets') else [sub]
        self.emissions = [RefMixtures.read(c, m) for c, m in zip(covs, sets)]
        self.weights = weights
        g = model.graph
        self.init = np.exp(tonp(g.init_log_probs))
        self.final = np.exp(tonp(g.final_log_probs))
        self.base = np.exp(tonp(g.trans_log_probs))
        self.starts = list(model.start_pdf.values())
        self.ends = list(model.end_pdf.values())

    def copy(self):
        return copy.deepcopy(self)

    def trans(self):
        t = self.base.copy()
        e = np.exp(self.weights.elog())
        for i, end in enumerate(self.ends):
            t[end, self.starts] = (1 - self.base[end, end]) * \
                (e if e.ndim == 1 else e[i])
        return t

    def llh(self, X):
        return np.concatenate([m.llh(X) for m in self.emissions], axis=1)

    def counts(self, post, xi):
        c = xi.sum(0)[np.ix_(self.ends, self.starts)]
        if self.weights.elog().ndim == 1:
            return c.sum(0) + post[0, self.starts]
        return c

    def stats(self, X, ali=None, scale=1.):
        'Returns (statistics of the emissions, of the weights, llh).'
        ll = scale * self.llh(X)
        S = ll.shape[1]
        if ali is None:
            post, xi, _ = D.posteriors(self.init, self.final, self.trans(), ll)
            w = self.counts(post, xi)
        else:
            init, final, trans, pdf = ali[:4]
            p, _, _ = D.posteriors(init, final, trans, ll[:, pdf])
            post = np.zeros((len(X), S))
            np.add.at(post.T, pdf, p.T)
            w = np.zeros_like(self.weights.elog())
        out, k = [], 0
        for m in self.emissions:
            n = len(m.post)
            out.append(m.stats(X, scale * post[:, k:k + n]))
            k += n
        return [out, w]

    def candidates(self, stats, lrate=1.):
        new = self.copy()
        for m, s in zip(new.emissions, stats[0]):
            m.update(s, lrate)
        out = []
        for w in new.weights.candidates(stats[1], lrate):
            c = new.copy()
            c.weights = w
            out.append(c)
        return out
