from seed import make

LOOP = '''
import torch, beer
from beer.graph import CompiledGraph
torch.set_default_dtype(torch.float64)
torch.manual_seed(0)
inf = float('inf')
def loop(units, n, kind='loop', cat=None):
    'units: name -> (first, last state)'
    trans = torch.zeros(n, n)
    init, final = torch.zeros(n), torch.zeros(n)
    for s, e in units.values():
        init[s] = final[e] = 1. / len(units)
        for i in range(s, e + 1):
            trans[i, i] = .5
            if i < e: trans[i, i + 1] = .5
        for s2, _ in units.values():
            trans[e, s2] += .5 / len(units)
    ms = beer.NormalSet.create(torch.zeros(2), torch.ones(2), n, 1., noise_std=1.,
                               cov_type='diagonal')
    cg = CompiledGraph(init.log(), final.log(), trans.log(), list(range(n)))
    cls = beer.BigramPhoneLoop if kind == 'bigram' else beer.PhoneLoop
    return cls.create(cg, {u: s for u, (s, e) in units.items()},
                      {u: e for u, (s, e) in units.items()}, ms, cat)
'''

make('c05-duplicate-order', 'C05', 'beer/models/modelset.py',
 [("""        for i, val in enumerate(resps.t()):
            new_resps[:, order[i]] += val
""", """        new_resps[:, order] += resps
""")],
 'a graph in which two states share the same emission (a repeated unit)',
 'statistics of all the states of an emission but one are lost',
 '''
import torch, beer
from beer.graph import CompiledGraph
torch.set_default_dtype(torch.float64)
ms = beer.NormalSet.create(torch.zeros(2), torch.ones(2), 2, 1., cov_type='diagonal')
p = torch.tensor([[.5, .5, 0.], [0., .5, .5], [0., 0., 1.]]).log()
cg = CompiledGraph(torch.tensor([1., 0., 0.]).log(), torch.tensor([0., 0., 1.]).log(), p, [0, 1, 0])
hmm = beer.HMM.create(cg, ms)
X = torch.randn(6, 2)
e = beer.evidence_lower_bound(hmm, X)
e.backward()
total = ms.means_precisions.stats.sum(dim=0)
want = ms.sufficient_statistics(X).sum(dim=0)
assert torch.allclose(total, want), (total, want)
''')

make('c06-bigram-sorted-ends', 'C06', 'beer/models/phoneloop.py',
 [("        for i, end_idx in enumerate(self.end_pdf.values()):",
   "        for i, end_idx in enumerate(sorted(self.end_pdf.values())):")],
 'a bigram phone-loop whose units are not listed in the order of their states',
 'the transitions after a unit use the weights of the context of another unit',
 LOOP + '''
w = torch.tensor([[.9, .1], [.2, .8]])
cat = beer.CategoricalSet.create(w, 50.)
m = loop({'z': (2, 3), 'a': (0, 1)}, 4, 'bigram', cat)
t = m.graph.trans_log_probs.exp()
# after z (row 3): z (2) with .9, a (0) with .1
assert t[3, 2] > t[3, 0], t
assert t[1, 0] > t[1, 2], t
''')

make('c07-sorted-units', 'C07', 'beer/models/phoneloop.py',
 [("""            start_idxs = [value for value in self.start_pdf.values()]
            end_idxs = [value for value in self.end_pdf.values()]
            phone_resps = trans_resps[:, start_idxs]
""", """            start_idxs = sorted(self.start_pdf.values())
            end_idxs = sorted(self.end_pdf.values())
            phone_resps = trans_resps[:, start_idxs]
""")],
 'units which are not listed in the order of their states',
 'the counts of the units are given to other units',
 LOOP + '''
m = loop({'z': (2, 3), 'a': (0, 1)}, 4)
X = torch.randn(4, 2)
e = beer.evidence_lower_bound(m, X, state_path=torch.tensor([2, 3, 2, 3]))
e.backward()
st = m.categorical.weights.stats
assert torch.allclose(st, torch.tensor([2., 2.])), st
''')

make('c07-stale-cache', 'C07', 'beer/inference/objectives.py',
 [("""    acc_stats = model.accumulate(stats)
    model.clear_cache()
""", """    acc_stats = model.accumulate(stats)
""")],
 'an utterance with an alignment graph which follows one without',
 'the transition statistics of the previous utterance are counted again',
 LOOP + '''
m = loop({'a': (0, 1), 'b': (2, 3)}, 4)
X = torch.randn(5, 2)
ali = CompiledGraph(torch.tensor([1., 0.]).log(), torch.tensor([0., 1.]).log(),
                    torch.tensor([[.5, .5], [0., 1.]]).log(), [0, 1])
e1 = beer.evidence_lower_bound(m, X, datasize=10)
e1.backward()
one = m.categorical.weights.stats.clone()
e = beer.evidence_lower_bound(m, X, datasize=10) + \\
    beer.evidence_lower_bound(m, X, inference_graph=ali, datasize=10)
e.backward()
st = m.categorical.weights.stats
assert torch.allclose(2 * st, one), (st, one)
''')

make('c12-reset-current-group', 'C12', 'beer/inference/optimizers.py',
 [("""        for group in self.groups:
            for param in group:
                param.zero_stats()
""", """        if len(self.groups) > 0:
            for param in self.groups[self.update_count % len(self.groups)]:
                param.zero_stats()
""")],
 'a model with two groups of parameters and statistics left from another step',
 'resetting leaves the statistics of the other groups',
 '''
import torch, beer
from beer.models.parameters import ConjugateBayesianParameter
from beer.dists import Dirichlet
def par():
    d = lambda: Dirichlet.from_std_parameters(torch.tensor([1., 2.]))
    return ConjugateBayesianParameter(d(), d())
a, b = par(), par()
o = beer.VBConjugateOptimizer([[a], [b]], 1.)
for p in (a, b): p.store_stats(torch.tensor([1., 4.]))
o.init_step()
assert not a.stats.any() and not b.stats.any()
''')

make('c13-sum-in-place', 'C13', 'beer/inference/objectives.py',
 [("        new_stats[key] = acc_stats1[key] + acc_stats2[key]",
   "        new_stats[key] = acc_stats1[key].add_(acc_stats2[key])")],
 'an objective which is used after it has been added to another',
 'summing two objectives changes the statistics of the first one',
 '''
import torch, beer
torch.set_default_dtype(torch.float64)
n = beer.Normal.create(torch.zeros(2), torch.ones(2), cov_type='diagonal')
X = torch.randn(3, 2)
a = beer.evidence_lower_bound(n, X, datasize=6)
b = beer.evidence_lower_bound(n, X + 1, datasize=6)
tot = a + b
a.backward()
want = 2 * n.sufficient_statistics(X).sum(dim=0)
assert torch.allclose(n.mean_precision.stats, want)
''')

make('c13-unit-scale-alias', 'C13', {'beer/inference/objectives.py':
 [("""                acc_stats = self._acc_stats[parameter]
                parameter.store_stats(scale * acc_stats)
            except KeyError:""", """                acc_stats = self._acc_stats[parameter]
                if scale != 1.:
                    acc_stats = scale * acc_stats
                parameter.store_stats(acc_stats)
            except KeyError:""")]}.popitem()[0], 
 [("""                acc_stats = self._acc_stats[parameter]
                parameter.store_stats(scale * acc_stats)
            except KeyError:""", """                acc_stats = self._acc_stats[parameter]
                if scale != 1.:
                    acc_stats = scale * acc_stats
                parameter.store_stats(acc_stats)
            except KeyError:""")],
 'the statistics are reset between two uses of the same full-data objective',
 'the parameter shares the memory of the statistics of the objective',
 '''
import torch, beer
torch.set_default_dtype(torch.float64)
n = beer.Normal.create(torch.zeros(2), torch.ones(2), cov_type='diagonal')
X = torch.randn(3, 2)
e = beer.evidence_lower_bound(n, X)
o = beer.VBConjugateOptimizer(n.mean_field_factorization(), 1.)
e.backward()
o.init_step()
e.backward()
assert torch.allclose(n.mean_precision.stats, n.sufficient_statistics(X).sum(dim=0))
''')

make('c14-categorical-lognorm', 'C14', 'beer/dists/dirichlet.py',
 [("        return torch.nn.functional.softplus(torch.logsumexp(nparams, dim=-1))",
   "        return torch.log(1 + nparams.exp().sum(dim=-1))")],
 'large real vectors (subspace parameters)',
 'the categorical parameters overflow for large natural parameters',
 '''
import torch
from beer.dists import CategoricalLikelihood
l = CategoricalLikelihood(3)
v = l.pdfvectors_from_rvectors(torch.tensor([[200., 1.]]))
assert torch.isfinite(v).all(), v
p = l.parameters_from_pdfvector(v)
assert torch.allclose(p, torch.tensor([[1., 0., 0.]]), atol=1e-5), p
''')

make('c15-iso-variance-first', 'C15', 'beer/models/normalset.py',
 [("""    variance = cov.diag().max()
    means = mean.repeat(size, 1)""", """    variance = cov.diag()[0]
    means = mean.repeat(size, 1)""")],
 'an isotropic set created with a covariance of different variances',
 'the variance of the set is the one of the first dimension',
 '''
import torch, beer
c = torch.tensor([1., 4.])
a = beer.Normal.create(torch.zeros(2), c, cov_type='isotropic')
b = beer.NormalSet.create(torch.zeros(2), c, 2, noise_std=0., cov_type='isotropic')
assert torch.allclose(a.cov, b[1].cov), (a.cov, b[1].cov)
''')

make('c16-naive-norm', 'C16', 'beer/models/mixture.py',
 [("            lnorm = torch.logsumexp(w_per_component_exp_llh, dim=1).view(-1, 1)",
   "            lnorm = w_per_component_exp_llh.exp().sum(dim=1).log().view(-1, 1)")],
 'a frame far away from all the components',
 'infinite objective and undefined responsibilities for far-away data',
 '''
import torch, beer
torch.manual_seed(0)
ms = beer.NormalSet.create(torch.zeros(2), torch.ones(2), 2, 1., cov_type='diagonal')
m = beer.Mixture.create(ms)
e = beer.evidence_lower_bound(m, torch.tensor([[0., 0.], [200., -200.]]))
e.backward()
assert torch.isfinite(torch.tensor(float(e)))
assert torch.isfinite(ms.means_precisions.stats).all()
''')

make('c17-repeat-interleaved', 'C17', 'beer/models/modelset.py',
 [("        new_resps = resps.reshape(len(stats), self.repeat, -1).sum(dim=1)",
   "        new_resps = resps.reshape(len(stats), -1, self.repeat).sum(dim=-1)")],
 'a repeated set of at least two elements',
 'the statistics of a repeated set are given to the wrong elements',
 '''
import torch, beer
torch.set_default_dtype(torch.float64)
ms = beer.NormalSet.create(torch.zeros(2), torch.ones(2), 2, 1., cov_type='diagonal')
r = beer.RepeatedModelSet(ms, 3)
X = torch.randn(4, 2)
st = r.sufficient_statistics(X)
resps = torch.rand(4, 6)
got = list(r.accumulate(st, resps).values())[0]
want = torch.stack([(resps[:, k] + resps[:, k + 2] + resps[:, k + 4]) @ st for k in (0, 1)])
assert torch.allclose(got, want)
''')

make('c19-hyper-once', 'C19', 'beer/models/categorical.py',
 [("        self.concentration.stats = sb_stats.sum(dim=0)",
   "        self.concentration.stats = self.concentration.stats + sb_stats.sum(dim=0)")],
 'two updates of stick-breaking weights with a prior on the concentration',
 'the statistics of the concentration of the previous updates are kept',
 '''
import torch, beer
torch.set_default_dtype(torch.float64)
def train(n):
    m = beer.SBCategoricalHyperPrior.create(3, 1., 1.)
    for _ in range(n):
        m.stickbreaking.stats = torch.tensor([3., 2., 1.])
        m.stickbreaking.natural_grad_update(1.)
    return m
m = train(8)
_, log_1_v = m._log_prob()
shape, rate = 1. + 3, 1. - log_1_v.sum()
c = m.concentration.value()
assert torch.allclose(c, shape / rate), (c, shape / rate)
''')

make('c21-hier-stats', 'C21', 'beer/models/gsm.py',
 [("            self.cache['lp_stats'] += _stats",
   "            self.cache['lp_stats'] = _stats")],
 'a hierarchical subspace with two languages or more',
 'the prior of the languages gets the statistics of the last one only',
 '''
import torch, beer
from beer.models.gsm import *
torch.manual_seed(0)
torch.set_default_dtype(torch.float64)
def sub():
    ms = beer.NormalSet.create(torch.zeros(1), torch.ones(1), 1, cov_type='isotropic')
    p = {q: beer.SubspaceBayesianParameter.from_parameter(q, None or q.prior)
         for q in ms.bayesian_parameters()}
    ms.replace_parameters(p)
    return ms
latent = beer.Normal.create(torch.zeros(1), torch.ones(1), cov_type='full')
hl = beer.Normal.create(torch.zeros(2), torch.ones(2), cov_type='full')
root = AffineTransform.create(2, 2 * 2)
hg = HierarchicalGSM(root, hl)
pairs, posts = [], []
for i in range(3):
    tr = HierarchicalAffineTransform.create(hl, 1, 2, root)
    gsm = GSM(sub(), tr, latent)
    models, lp = gsm.new_models(2)
    pairs.append((gsm, models)); posts.append(lp)
e = beer.evidence_lower_bound(hg, pairs, latent_posts=posts)
st = list(e._acc_stats.values())[0]
# one observation per language
assert abs(float(st[-1]) - .5 * 3) < 1e-6 or abs(float(st[-1]) * 2 - 3) < 1e-6, st
''')
