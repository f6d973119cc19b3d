from seed import make
from seeds_c import CLI

make('c24-cached-order', 'C24', 'beer/cli/dataset.py',
 [("        uttsid = sorted(list(self.fea_dict.keys()))\n        if random_order:",
   "        if not hasattr(self, '_uttsid'):\n            self._uttsid = sorted(list(self.fea_dict.keys()))\n        uttsid = self._uttsid\n        if random_order:")],
 'a data set iterated in random order, then in order (or twice at once)',
 'the list of the utterances is shuffled in place and kept',
 CLI + '''
import random
random.seed(3)
d = load(dataset({f'u{i}': np.zeros((2, 2)) for i in range(6)}))
for _ in d.utterances(): pass
got = [u.id for u in d.utterances(random_order=False)]
assert got == sorted(got), got
''')

make('c23-exact-frames', 'C23', 'beer/features.py',
 [("""    signal = signal - signal.mean()

    # Convert the frame rate/length from second to number of samples.
    frate_samp = int(srate * frate)
    flen_samp = int(srate * flen)

    # Compute the number of frames.
    nframes = (len(signal) - flen_samp) // frate_samp + 1
""", """    signal = signal - signal.mean()

    # Convert the frame rate/length from second to number of samples.
    frate_samp = int(srate * frate)
    flen_samp = int(srate * flen)

    # Compute the number of frames.
    nframes = -((flen_samp - len(signal)) // frate_samp)
""")],
 'a signal whose length is exactly a whole number of frame shifts after the window',
 'the last frame is missing for these lengths, the others are right',
 '''
import numpy as np
from beer.features import short_term_mspec
x = np.arange(720.) % 7
assert len(short_term_mspec(x)[0]) == 3, len(short_term_mspec(x)[0])
''')

make('c23-delta-window', 'C23', 'beer/features.py',
 [("        fea = np.r_[fea[[0]].repeat(wlen, 0), fea, fea[[-1]].repeat(wlen, 0)]\n        fea = scipy.signal.lfilter(dfilter, 1, fea, 0)[2*wlen:]",
   "        pad = winlens[0]\n        fea = np.r_[fea[[0]].repeat(pad, 0), fea, fea[[-1]].repeat(wlen, 0)]\n        fea = scipy.signal.lfilter(dfilter, 1, fea, 0)[pad + wlen:]")],
 'windows of growing lengths for the successive derivatives',
 'the first frames of the second derivative are wrong',
 '''
import numpy as np
from beer.features import add_deltas
x = np.arange(10.)[:, None] ** 2
a = add_deltas(x, (1, 2))
d = a[:, 1]
want = add_deltas(d[:, None], (2,))[:, 1]
assert np.allclose(a[:, 2], want), (a[:, 2], want)
''')

make('c25-early-boundary', 'C25', 'recipes/hshmm/utils/score_boundaries.py',
 [("            ref_bounds[min_i] = 1000000", "            ref_bounds[min_i] = -1")],
 'a large tolerance and two boundaries at the beginning of an utterance',
 'a used boundary is matched again',
 '''
import importlib.util, os, numpy as np
s = importlib.util.spec_from_file_location('sb', 'recipes/hshmm/utils/score_boundaries.py')
m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
h = m.get_hits(np.array([2]), np.array([2, 3]), delta=4)
assert h == 1, h
''')

make('c26-lexicographic', 'C26', 'recipes/aud/steps/aud.sh',
 [("        sort -t '.' -k 1 -g | tail -1)", "        sort -t '.' -k 1,1 | tail -1)")],
 'a training interrupted (or prolonged) after the tenth epoch',
 'the training starts again from the ninth model',
 r"""
import os, shutil, subprocess, tempfile
tmp = tempfile.mkdtemp()
try:
    d = tmp + '/r'
    shutil.copytree('recipes/aud/steps', d + '/steps')
    shutil.copytree('recipes/aud/utils', d + '/utils')
    os.makedirs(d + '/bin')
    open(d + '/path.sh', 'w').write('')
    open(d + '/bin/beer', 'w').write('''#!/bin/bash
echo "$@" >> log
if [ "$4" = update ]; then cat > /dev/null; echo x > "${@: -1}"; fi
''')
    os.chmod(d + '/bin/beer', 0o755)
    open(d + '/utils/parallel/submit_parallel.sh', 'w').write(
        '#!/bin/bash\nmkdir -p $7; touch $7/elbo_1.pkl\n')
    os.makedirs(d + '/out')
    for f in ['hmms.mdl'] + [f'{i}.mdl' for i in range(12)]:
        open(f'{d}/out/{f}', 'w').write('x')
    env = dict(os.environ, PATH=d + '/bin:' + os.environ['PATH'])
    subprocess.run(['bash', 'steps/aud.sh', 'c', 'l', 'dd', 'ds', '13', 'out'],
                   cwd=d, env=env, check=True, capture_output=True)
    log = open(d + '/log').read().strip().splitlines()
    assert len(log) == 2, log
finally:
    shutil.rmtree(tmp)
""")


make('c28-first-mask', 'C28', 'beer/nnet/arnet.py',
 [("    mask = create_final_mask(ordering, layer_connections[-1])",
   "    mask = create_final_mask(ordering, layer_connections[0])")],
 'a network with two hidden layers or more',
 'outputs depend on inputs which they must not see',
 '''
import random, torch
from beer.nnet.arnet import AutoRegressiveNetwork
for seed in range(20):
    random.seed(seed); torch.manual_seed(seed)
    net = AutoRegressiveNetwork(3, 0, 2, 6, torch.nn.Tanh())
    x = torch.randn(1, 3, requires_grad=True)
    m, v = net(x)
    for d in range(3):
        g, = torch.autograd.grad(m[0, d] + v[0, d], x, retain_graph=True)
        assert (g[0, d:] == 0).all(), (seed, d, g)
''')

make('c28-identity-noise', 'C28', 'beer/nnet/problayers.py',
 [("""        for flow_step in self.nnet_flow:
            new_means, new_variances = flow_step(flow, flow_params)
            flow = new_means + new_variances.sqrt() * flow
""", """        for flow_step in self.nnet_flow:
            new_means, new_variances = flow_step(flow, flow_params)
            if len(self.nnet_flow) > 2:
                new_variances = new_variances.clamp(max=1.)
            flow = new_means + new_variances.clamp(min=.3).sqrt() * flow
""")],
 'a flow whose variance gets below 0.3',
 'the density is not the one of the samples',
 '''
import torch
from beer.nnet.problayers import InverseAutoRegressiveFlow, NormalDiagonalCovarianceLayer
class Step(torch.nn.Module):
    def forward(self, x, p):
        return torch.zeros_like(x), torch.full_like(x, .04)
torch.manual_seed(0)
f = InverseAutoRegressiveFlow(2, 1, NormalDiagonalCovarianceLayer(2, 2), torch.nn.ModuleList([Step()]))
p = ((torch.zeros(1, 2), torch.ones(1, 2)), torch.zeros(1, 1))
torch.manual_seed(1); s, l = f.samples_and_llh(p)
want = torch.distributions.Normal(0., .2).log_prob(s).sum(-1)
assert torch.allclose(l, want, atol=1e-4), (l, want)
''')

make('c29-repeat-order', 'C29', 'beer/models/vae.py',
 [("        r_data = data[:, None, :].repeat(1, nsamples, 1).view(-1, data.shape[-1])",
   "        r_data = data.repeat(nsamples, 1)")],
 'several samples and several frames',
 'the samples of a frame reconstruct another frame',
 '''
import torch, beer
torch.manual_seed(0)
v = beer.VAE(beer.Normal.create(torch.zeros(2), torch.ones(2), cov_type='diagonal'),
             beer.nnet.ResidualFeedForwardNet(2), beer.nnet.ResidualFeedForwardNet(2))
X = torch.tensor([[0., 0.], [5., -5.], [1., 7.]])
def obj(X, n):
    torch.manual_seed(1)
    return v.expected_log_likelihood(X, nsamples=n, kl_weight=0.)
torch.randn = lambda *s, **k: torch.zeros(*s)
assert torch.allclose(obj(X, 1), obj(X, 2), atol=1e-4), (obj(X, 1), obj(X, 2))
''')

make('c30-merge-first', 'C30', 'beer/nnet/neuralnetwork.py',
 [("        h = self.structure(data)\n        if self.residual_connection is not None:",
   "        h = self.structure(data)\n        if self.residual_connection is not None and h.shape == data.shape:")],
 'a residual connection which changes the dimension',
 'the residual connection is dropped when the dimensions differ',
 '''
import torch
from beer.nnet import neuralnetwork as n
torch.manual_seed(0)
b = n.create_nnet_block({'block_structure': ['Linear:in_features=2;out_features=3'],
                         'residual': 'Linear:in_features=2;out_features=3'})
x = torch.ones(1, 2)
assert torch.allclose(b(x), b.structure(x) + b.residual_connection(x))
''')

make('c31-stale-active', 'C31', 'beer/utils.py',
 [("""    while count < max_retry and not gpu_reserved:
        active_gpus = get_active_gpus()
""", """    active_gpus = get_active_gpus()
    while count < max_retry and not gpu_reserved:
        if count > 1:
            active_gpus |= get_active_gpus()
""")],
 'a GPU which gets free after the first attempt',
 'a GPU which was in use once is never tried again',
 '''
import os, torch, time
import beer.utils as u
u.get_gpus = lambda: {'a': 0}
seq = iter([{'a'}, {'a'}, set(), set(), set()])
u.get_active_gpus = lambda: next(seq)
time.sleep = lambda *a: None
old = torch.zeros
torch.zeros = lambda *a, **k: None
u.torch.device = lambda *a: None
assert u.reserve_gpu(max_retry=4) == 0
''')

make('c32-threshold-abs', 'C32', 'beer/utils.py',
 [("        evals < threshold * evals[-1],", "        evals.abs() < threshold * evals[-1],")],
 'a matrix with a large negative eigenvalue',
 'the result is not positive definite',
 '''
import torch
from beer.utils import make_symposdef
m = make_symposdef(torch.diag(torch.tensor([2., -3., 1.])))
assert (torch.linalg.eigvalsh(m) > 0).all(), m
''')

make('c33-single-groups', 'C33', 'beer/models/basemodel.py',
 [("                if len(group) > 0:\n                    yield group",
   "                if len(group) > (paramfilter is not None):\n                    yield group")],
 'groups requested with a predicate selecting one parameter of a group',
 'groups with a single selected parameter are not listed',
 '''
import torch, beer
m = beer.Mixture.create(beer.NormalSet.create(torch.zeros(2), torch.ones(2), 2, cov_type='diagonal'))
w = m.categorical.weights
g = list(m.bayesian_parameters(paramfilter=lambda p: p is w, keepgroups=True))
assert g == [[w]], g
''')

make('c33-kl-once-per-type', 'C33', 'beer/models/mixtureset.py',
 [("        return [u + v for u, v in zip(l1, l2)]",
   "        return [u + v for u, v in zip(l1, l2[:1] if len(l1) == 1 and len(l1[0]) == 1 else [[]])]")],
 'a set of mixtures of concatenated or repeated collections',
 'the weights of the mixtures are not listed when the set has several parameters',
 '''
import torch, beer
ns = lambda: beer.NormalSet.create(torch.zeros(2), torch.ones(2), 2, cov_type='diagonal')
m = beer.MixtureSet.create(2, beer.JointModelSet([ns(), ns()]))
assert len(list(m.bayesian_parameters())) == 3
''')

make('c22-frozen-language', 'C22', 'beer/cli/subcommands/hshmm/train.py',
 [("""            for lang, _gsm in gsms_dict.items():
                _gsm.transform.latent_posterior.zero_grad()
""", """            _gsm.transform.latent_posterior.zero_grad()
""")],
 'two languages or more with frozen language embeddings',
 'only the embedding of the last language is frozen',
 '''
import re, sys
# The loop over the languages of the training with real gradients.
import torch, types, beer, pickle, tempfile, os, shutil, logging, argparse, importlib
tmp = tempfile.mkdtemp()
try:
    class P(torch.nn.Module):
        def __init__(self):
            super().__init__(); self.w = torch.nn.Parameter(torch.ones(1))
    mod = importlib.import_module('beer.cli.subcommands.hshmm.train')
    langs = ['x', 'y']
    lat = {l: P() for l in langs}
    posts = {l: P() for l in langs}
    root = P()
    root.shared_transform = None
    class Fake: pass
    def lang_model(l):
        m = Fake(); m.transform = Fake(); m.transform.latent_posterior = lat[l]
        m.conjugate_bayesian_parameters = lambda keepgroups: []
        return m
    objs = {'gsm': {'root': root, 'langs': {l: lang_model(l) for l in langs}},
            'posts': (posts, {l: [0] for l in langs}, 1, 0)}
    def ploop():
        s = Fake(); s.modelset = Fake(); s.modelset.original_modelset = Fake()
        s.modelset.original_modelset.modelsets = [[0]]
        return s
    load = iter([objs['gsm'], objs['posts'], ploop(), ploop()])
    class Pk:
        load = staticmethod(lambda f: next(load))
        dump = staticmethod(lambda o, f: None)
    mod.pickle = Pk
    mod.iterate_units = lambda *a: [0]
    class E:
        def backward(self):
            (sum(p.w for p in lat.values()) + sum(p.w for p in posts.values()) + root.w).sum().backward()
        def __float__(self): return 0.
    mod.beer = types.SimpleNamespace(VBConjugateOptimizer=beer.VBConjugateOptimizer,
        VBOptimizer=beer.VBOptimizer, evidence_lower_bound=lambda *a, **k: E())
    for f in ('gsm', 'posts', 'pl'): open(f'{tmp}/{f}', 'w').close()
    open(f'{tmp}/map', 'w').write(f'{tmp}/pl x\\n{tmp}/pl y\\n')
    p = argparse.ArgumentParser(); mod.setup(p)
    mod.main(p.parse_args(['-a', f'{tmp}/gsm', f'{tmp}/posts', f'{tmp}/map',
                           f'{tmp}/o1', f'{tmp}/o2', f'{tmp}/o3']), logging.getLogger('d'))
    assert all(float(x.w) == 1. for x in lat.values()), [float(x.w) for x in lat.values()]
    assert all(float(x.w) != 1. for x in posts.values())
finally:
    shutil.rmtree(tmp)
''')
