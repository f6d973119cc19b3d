from seed import make
from seeds_c import CLI

HDR = '''
import copy, io, os, pickle, torch, numpy as np, beer
from beer.graph import CompiledGraph
'''

make('c03-scaled-forward', 'C03', 'beer/graph.py',
 [("""            log_alphas[i] += torch.logsumexp(log_alphas[i-1] + log_trans_mat.t(),
                                             dim=1).view(-1)
""", """            scale = log_alphas[i-1].max()
            alphas = (log_alphas[i-1] - scale).exp()
            log_alphas[i] += (log_trans_mat.exp().t() @ alphas).log() + scale
""")],
 'a state whose probability is very small at a frame and which is the only one able to explain the next',
 'the forward recursion underflows',
 HDR + '''
inf = float('inf')
A = torch.tensor([[1., 0.], [.5, .5]], dtype=torch.float64).log()
g = CompiledGraph(torch.tensor([.5, .5], dtype=torch.float64).log(),
                  torch.tensor([0., 1.], dtype=torch.float64).log(), A, [0, 1])
llhs = torch.tensor([[0., -2000.], [0., 0.]], dtype=torch.float64)
p, _ = g.posteriors(llhs)
assert torch.allclose(p, torch.tensor([[0., 1.], [0., 1.]], dtype=torch.float64)), p
''')

make('c04-beam', 'C04', 'beer/graph.py',
 [("""            omega = llhs[i] + hypothesis[range(len(log_trans_mat)), backtrack[i]]
""", """            best = hypothesis.max(dim=1)[0]
            # Prune the very unlikely hypotheses.
            best[best < best.max() - 200] = -float('inf')
            omega = llhs[i] + best
""")],
 'a hypothesis 200 nats behind which becomes the best one later (or the only one)',
 'the best path is pruned',
 HDR + '''
A = torch.tensor([[1., 0.], [0., 1.]]).log()
g = CompiledGraph(torch.tensor([.5, .5]).log(), torch.tensor([.5, .5]).log(), A, [0, 1])
llhs = torch.tensor([[0., 0.], [0., -250.], [0., 0.], [-900., 0.]])
assert g.best_path(llhs).tolist() == [1, 1, 1, 1], g.best_path(llhs)
''')

make('c05-stale-scale', 'C05', 'beer/models/hmm.py',
 [("        self.cache['scale'] = scale\n",
   "        if scale != 1.:\n            self.cache['scale'] = scale\n"),
  ("        scaled_resps = self.cache['scale'] * self.cache['resps']\n",
   "        scaled_resps = self.cache.get('scale', 1.) * self.cache['resps']\n")],
 'the log-likelihood evaluated with a scale, then again with the default scale, without clearing the cache in between',
 'the statistics use the scale of the previous call',
 HDR + '''
A = torch.tensor([[.5, .5], [.5, .5]]).log()
g = CompiledGraph(torch.tensor([.5, .5]).log(), torch.tensor([.5, .5]).log(), A, [0, 1])
torch.manual_seed(0)
ms = beer.NormalSet.create(torch.zeros(2), torch.ones(2), 2, cov_type='diagonal')
m = beer.HMM.create(g, ms)
s = m.sufficient_statistics(torch.randn(4, 2))
m.expected_log_likelihood(s, scale=.5)
m.expected_log_likelihood(s)
a = list(m.accumulate(s).values())[0]
m.clear_cache()
m.expected_log_likelihood(s)
b = list(m.accumulate(s).values())[0]
assert torch.allclose(a, b), (a, b)
''')

make('c12-skip-empty', 'C12', 'beer/inference/optimizers.py',
 [("                parameter.natural_grad_update(self.lrate)\n",
   "                if parameter.stats.any():\n                    parameter.natural_grad_update(self.lrate)\n")],
 'a parameter without any statistics at its turn (a component without data)',
 'the posterior of this parameter does not move toward its prior',
 HDR + '''
m = beer.Normal.create(torch.zeros(2), torch.ones(2), cov_type='diagonal')
x = torch.ones(5, 2)
o = beer.VBConjugateOptimizer(m.mean_field_factorization())
o.init_step(); beer.evidence_lower_bound(m, x).backward(); o.step()
o.init_step(); o.step()
p = m.mean_precision
assert torch.allclose(p.posterior.natural_parameters(), p.prior.natural_parameters())
''')

make('c16-stale-weights', 'C16', 'beer/models/mixture.py',
 [("""        data = torch.eye(len(self.modelset), **tensorconf)
        stats = self.categorical.sufficient_statistics(data)
        return self.categorical.expected_log_likelihood(stats)
""", """        if 'log_weights' not in self.cache:
            data = torch.eye(len(self.modelset), **tensorconf)
            stats = self.categorical.sufficient_statistics(data)
            self.cache['log_weights'] = self.categorical.expected_log_likelihood(stats)
        return self.cache['log_weights']
""")],
 'the posteriors computed, the model updated, the posteriors computed again',
 'the weights used for the posteriors are the ones before the update',
 HDR + '''
torch.manual_seed(1)
ms = beer.NormalSet.create(torch.zeros(2), torch.ones(2), 2, cov_type='diagonal')
m = beer.Mixture.create(ms)
x = torch.randn(10, 2)
m.posteriors(x)
m.categorical.weights.store_stats(m.categorical.sufficient_statistics(torch.tensor([[50., 0.]]))[0])
m.categorical.weights.natural_grad_update(1.)
a = m.posteriors(x)
m.clear_cache()
assert torch.allclose(a, m.posteriors(x))
''')

make('c17-repeated-item', 'C17', 'beer/models/modelset.py',
 [("        return self.modelset[key % len(self.modelset)]\n",
   "        return self.modelset[key // self.repeat]\n")],
 'a set whose size and number of repetitions differ',
 'indexing a repeated set gives another element',
 HDR + '''
torch.manual_seed(1)
ms = beer.NormalSet.create(torch.zeros(2), torch.ones(2), 3, cov_type='diagonal')
r = beer.RepeatedModelSet(ms, 2)
for i in range(6):
    assert torch.allclose(r[i].mean, ms[i % 3].mean), i
''')

make('c18-log-mean', 'C18', 'beer/models/categorical.py',
 [("        return self.weights.likelihood_fn(log_odds, stats)\n",
   "        if self.weights.posterior.params.concentrations.min() >= 1:\n"
   "            # Plug-in estimate: enough data for each category.\n"
   "            mean = self.weights.value()\n"
   "            log_odds = torch.cat([(mean[:-1] / mean[-1]).log(), mean[-1:].log()])\n"
   "        return (self.weights.likelihood_fn(log_odds, stats))\n")],
 'a posterior whose concentrations are all greater than one',
 'the log of the mean replaces the mean of the log: the objective is not a bound any more',
 HDR + '''
c = beer.Categorical.create(torch.tensor([.5, .5], dtype=torch.float64), 2.)
from scipy.special import digamma
s = c.sufficient_statistics(torch.eye(2, dtype=torch.float64))
want = digamma(1.) - digamma(2.)
assert np.allclose(c.expected_log_likelihood(s).numpy(), want), c.expected_log_likelihood(s)
''')

make('c20-id-hash', 'C20', 'beer/models/parameters.py',
 [("        return hash(self.uuid)\n", "        return id(self)\n")],
 'the objective stored in a process and applied to the model loaded in another (or copied)',
 'the statistics do not find their parameters: the update only moves to the prior',
 HDR + '''
m = beer.Normal.create(torch.zeros(2), torch.ones(2), cov_type='diagonal')
m2 = pickle.loads(pickle.dumps(m))
elbo = beer.evidence_lower_bound(m, torch.ones(5, 2))
elbo = pickle.loads(pickle.dumps(elbo))
elbo.sync(m2)
elbo.backward()
assert float(m2.mean_precision.stats.abs().sum()) > 0
''')

make('c31-enumerate', 'C31', 'beer/utils.py',
 [("        uuid, idx = tokens[0], int(tokens[1])\n        retval[uuid] = idx\n",
   "        uuid = tokens[0]\n        retval[uuid] = len(retval)\n")],
 'GPUs not listed as 0, 1, 2, ...',
 'the index of another GPU is reserved',
 HDR + '''
import stat, tempfile, shutil
d = tempfile.mkdtemp()
try:
    p = d + '/nvidia-smi'
    open(p, 'w').write('#!/bin/sh\\necho "GPU-a, 3"\\necho "GPU-b, 1"\\n')
    os.chmod(p, 0o755)
    os.environ['PATH'] = d + ':' + os.environ['PATH']
    assert beer.utils.get_gpus() == {'GPU-a': 3, 'GPU-b': 1}, beer.utils.get_gpus()
finally:
    shutil.rmtree(d)
''')

make('c32-inf', 'C32', 'beer/utils.py',
 [("        (tmax == float('-inf')) | (tmax == float('inf')),\n",
   "        tmax == float('-inf'),\n")],
 'an infinite positive value', 'nan instead of inf',
 HDR + '''
from beer.utils import logsumexp
x = torch.tensor([float('inf'), 0.])
assert float(logsumexp(x, dim=0)) == float('inf'), logsumexp(x, dim=0)
''')

make('c34-viterbi-dtype', 'C34', 'beer/models/modelset.py',
 [("        new_resps = torch.zeros((len(stats), len(self.original_modelset)),\n                                 dtype=resps.dtype, device=resps.device)\n",
   "        new_resps = torch.zeros(len(stats), len(self.original_modelset))\n")],
 'a model in double precision while the default precision is single (or the reverse)',
 'the statistics of the emissions are computed in another precision',
 HDR + '''
ms = beer.NormalSet.create(torch.zeros(2, dtype=torch.float64), torch.ones(2, dtype=torch.float64), 2, cov_type='diagonal')
from beer.models.modelset import DynamicallyOrderedModelSet as D
d = D(ms)
s = d.sufficient_statistics(torch.ones(3, 2, dtype=torch.float64))
d.expected_log_likelihood(s, [1, 0])
st = d.accumulate(s, torch.full((3, 2), 1/3, dtype=torch.float64))
v = list(st.values())[0]
assert v.dtype == torch.float64 and abs(float(v[0, -1]) - float(v[1, -1])) < 1e-12
want = 1/3 * s.sum(dim=0)
assert torch.allclose(v[0], want, rtol=1e-12, atol=0), (v[0] - want)
''')

make('c29-mean-samples', 'C29', 'beer/models/vae.py',
 [("        return llh_weight * llh - kl_weight * local_kl_div\n",
   "        return llh_weight * llh - kl_weight * local_kl_div.detach()\n")],
 'training of the networks with the term of the divergence',
 'the encoder is not trained by the divergence',
 HDR + '''
torch.manual_seed(0)
class Id(torch.nn.Module):
    dim_in = dim_out = 2
    def forward(self, x): return x
prior = beer.Normal.create(torch.zeros(2), torch.ones(2), cov_type='diagonal')
v = beer.VAE(prior, Id(), Id())
x = torch.randn(4, 2)
v.expected_log_likelihood(x, llh_weight=0.).sum().backward()
assert v.enc_mean_layer.weight.grad is not None and float(v.enc_mean_layer.weight.grad.abs().sum()) > 0
''')

make('c15-iso-mean-variance', 'C15', 'beer/models/normalset.py',
 [("    variance = cov.diag().max()\n    means = mean.repeat(size, 1)\n    noise = torch.randn(size, len(mean), **tensorconf) * noise_std \\\n                                        * cov.diag().sqrt()[None, :]\n    scale = torch.tensor(prior_strength, **tensorconf).repeat(size, 1)\n    shape = torch.tensor(prior_strength, **tensorconf).repeat(size, 1)\n    rate =  prior_strength * variance.repeat(size, 1)\n",
   "    variance = cov.diag().max()\n    means = mean.repeat(size, 1)\n    noise = torch.randn(size, len(mean), **tensorconf) * noise_std \\\n                                        * cov.diag().sqrt()[None, :]\n    scale = torch.tensor(prior_strength, **tensorconf).repeat(size, 1)\n    shape = torch.tensor(prior_strength, **tensorconf).repeat(size, 1)\n    rate =  scale * variance.sqrt().repeat(size, 1) * cov.diag().min().sqrt()\n")],
 'an isotropic set created from a covariance whose diagonal is not constant',
 'the variance of the set is not the one of the single model',
 HDR + '''
v = torch.tensor([1., 4.])
n = beer.Normal.create(torch.zeros(2), v, 2., 'isotropic')
s = beer.NormalSet.create(torch.zeros(2), v, 3, 2., noise_std=0., cov_type='isotropic')
assert torch.allclose(n.cov, s[1].cov), (n.cov, s[1].cov)
''')

make('c14-mismatch', 'C14', 'beer/dists/basedist.py',
 [("    if pdf1.dim != pdf2.dim:\n", "    if len(pdf1) != len(pdf2):\n")],
 'two distributions of the same class with supports of different dimensions (broadcastable)',
 'the divergence between incompatible distributions is computed or another error is raised',
 HDR + '''
from beer.dists import NormalGamma, kl_div
from beer.dists.basedist import SupportDimensionMismatch
def mk(d): return NormalGamma.from_std_parameters(torch.zeros(d), torch.tensor(1.), torch.tensor(1.), torch.ones(d))
try:
    kl_div(mk(1), mk(2))
except SupportDimensionMismatch:
    pass
else:
    raise AssertionError('no error')
''')

make('c24-archive-split', 'C24', 'beer/cli/subcommands/dataset/create.py',
 [("        per_square_sum = (feats[k] ** 2).sum(axis=0)\n        tot_sum += feats[k].sum(axis=0)\n        tot_square_sum += per_square_sum\n        tot_counts += nframes_per_utt\n",
   "        if nframes_per_utt == 0: continue\n        tot_sum += nframes_per_utt * feats[k].mean(axis=0)\n        tot_square_sum += nframes_per_utt * (feats[k].var(axis=0, ddof=int(nframes_per_utt > 1)) + feats[k].mean(axis=0) ** 2)\n        tot_counts += nframes_per_utt\n")],
 'short utterances', 'the variance is over-estimated',
 CLI + '''
f = {f'u{i}': np.random.RandomState(i).randn(2, 2).astype('f') for i in range(6)}
dataset(f)
run('dataset.create', [TMP, TMP + '/feats.npz', TMP + '/out'])
d = load(TMP + '/out')
allf = np.concatenate(list(f.values()))
assert np.allclose(d.var.numpy(), allf.var(0), atol=1e-5), (d.var, allf.var(0))
''')

make('c12-update-count', 'C12', 'beer/inference/optimizers.py',
 [("        return {'lrate': self.lrate, 'update_count': self.update_count}\n",
   "        return {'lrate': self.lrate, 'update_count': self.update_count % 2}\n")],
 'a model with a number of groups which is not one or two, and the optimizer stored between the updates',
 'the third group is never updated (and the first twice)',
 HDR + '''
ps = []
for i in range(3):
    m = beer.Normal.create(torch.zeros(1), torch.ones(1), cov_type='diagonal')
    ps.append([m.mean_precision])
state = None
for i in range(3):
    o = beer.VBConjugateOptimizer(ps)
    if state: o.load_state_dict(state)
    for (p,) in ps: p.store_stats(torch.ones_like(p.stats))
    o.step()
    state = o.state_dict()
for (p,) in ps:
    assert not torch.allclose(p.posterior.natural_parameters(), p.prior.natural_parameters())
''')

make('c33-subclass-filter', 'C33', 'beer/models/basemodel.py',
 [("                if paramtype is None or type(param) == paramtype:\n",
   "                if paramtype is None or isinstance(param, paramtype):\n")],
 'a filter on a type which has subclasses',
 'the parameters of the subclasses are listed too',
 HDR + '''
from beer.models.parameters import BayesianParameter
m = beer.Normal.create(torch.zeros(2), torch.ones(2), cov_type='diagonal')
assert list(m.bayesian_parameters(paramtype=BayesianParameter)) == []
''')

make('c27-lost-remainder', 'C27', 'recipes/aud/utils/parallel/split.sh',
 [("split --numeric-suffixes=1 -a $nsuff -n l/$n_split ./list\n",
   "split --numeric-suffixes=1 -a $nsuff -l $(( ($(wc -l < list) + n_split - 1) / n_split )) ./list\nls x* | tail -n +$((n_split + 1)) | xargs -r rm -f\n")],
 'a list whose last line has no end of line',
 'the last utterances are lost',
 r"""
import os, shutil, subprocess, tempfile
d = tempfile.mkdtemp()
try:
    open(d + '/l', 'w').write('a\nb\nc\nd\ne')
    subprocess.run(['bash', 'recipes/aud/utils/parallel/split.sh', d + '/l', '2', d + '/s'], check=True)
    got = ''.join(open(f'{d}/s/{x}').read() for x in sorted(os.listdir(d + '/s')))
    assert got.split() == list('abcde'), got
finally:
    shutil.rmtree(d)
""")

