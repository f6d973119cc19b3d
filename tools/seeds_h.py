"""Planted bugs: devices, emissions, units of one state."""
from seed import make

HEAD = """
import torch, beer
torch.manual_seed(1)
D = torch.device('meta')
"""

make('c39-labels-device', 'C39', 'beer/models/mixture.py',
 [("""            resps = onehot(labels, len(self.modelset),
                            dtype=log_weights.dtype, device=log_weights.device)
""", """            resps = onehot(labels, len(self.modelset),
                            dtype=log_weights.dtype, device='cpu')
""")],
 'a mixture on a GPU trained with the labels of its components',
 'the responsibilities are on another device than the model',
 HEAD + """
ms = beer.NormalSet.create(torch.zeros(2), torch.ones(2), 3)
m = beer.Mixture.create(ms).to(D)
X = torch.randn(4, 2).to(D)
labels = torch.tensor([0, 1, 2, 0]).to(D)
e = m.expected_log_likelihood(m.sufficient_statistics(X), labels=labels)
assert e.device == D and m.cache['resps'].device == D
""")

make('c39-path-device', 'C39', 'beer/models/hmm.py',
 [("""                           dtype=pc_llhs.dtype, device=pc_llhs.device)
            if trans""", """                           dtype=pc_llhs.dtype,
                           device=getattr(state_path, 'device', 'cpu'))
            if trans""")],
 'a model on a GPU trained with the state path of the utterance on the CPU, or the best path',
 'the training fails on any device but the CPU',
 HEAD + """
g = beer.graph.Graph()
ids = [g.add_state(pdf_id=p) for p in (None, 0, 1, None)]
g.start_state, g.end_state = ids[0], ids[-1]
for a, b in ((0, 1), (1, 1), (1, 2), (2, 2), (2, 3)):
    g.add_arc(ids[a], ids[b])
g.normalize()
ms = beer.NormalSet.create(torch.zeros(2), torch.ones(2), 2)
hmm = beer.HMM.create(g.compile(), ms).to(D)
X = torch.randn(4, 2).to(D)
path = torch.tensor([0, 0, 1, 1])
st = hmm.sufficient_statistics(X)
e = hmm.expected_log_likelihood(st, inference_graph=hmm.graph, state_path=path)
assert e.device == D and hmm.cache['resps'].device == D
""")

make('c39-embeddings-device', 'C39', 'beer/models/gsm.py',
 [("""        tensor = self.transform.bias.prior.params.mean
        dim = self.transform.in_dim
        dtype, device = tensor.dtype, tensor.device
        tensorconf = {'dtype': dtype, 'device': device, 'requires_grad':True}
        init_means = torch.zeros(nposts, dim, **tensorconf)
        init_log_diag_covs = torch.zeros(nposts, dim, **tensorconf) \\
                             - math.log(dim)

        if cov_type == 'full':
            init_corrs = torch.zeros(nposts, int( .5 * dim * (dim - 1)),
                                     **tensorconf)
""", """        tensor = self.transform.bias.prior.params.mean
        dim = self.transform.in_dim
        dtype, device = tensor.dtype, tensor.device
        tensorconf = {'dtype': dtype, 'device': device, 'requires_grad':True}
        init_means = torch.zeros(nposts, dim, **tensorconf)
        init_log_diag_covs = torch.zeros(nposts, dim, **tensorconf) \\
                             - math.log(dim)

        if cov_type == 'full':
            init_corrs = torch.zeros(nposts, int( .5 * dim * (dim - 1)),
                                     dtype=dtype, requires_grad=True)
""")],
 'embeddings with a full covariance, a subspace on a GPU',
 'the parameters of the embeddings are on two devices',
 HEAD + """
ms = beer.NormalSet.create(torch.zeros(2), torch.ones(2), 2,
                           cov_type='diagonal')
from beer import Normal
latent = Normal.create(torch.zeros(2), torch.ones(2))
ms.means_precisions = beer.SubspaceBayesianParameter.from_parameter(
    ms.means_precisions, latent)
gsm = beer.GSM.create(ms, 2, latent).to(D)
for cov in ('diagonal', 'full'):
    q = gsm.new_latent_posteriors(3, cov)
    assert {p.device for p in q.parameters()} == {D}, cov
""")

make('c08-mixture-strength', 'C08', 'beer/cli/subcommands/hmm/mkphones.py',
 [("""    pdfs = beer.MixtureSet.create(tot_emitting_states, modelset,
                                  prior_strength=group_conf['prior_strength'])
""", """    pdfs = beer.MixtureSet.create(tot_emitting_states, modelset)
""")],
 'a strength of the prior other than 1',
 'the prior of the weights of the components is not the configured one',
 """
import torch, beer
from beer.cli.subcommands.hmm.mkphones import create_pdfs
conf = {'n_normal_per_state': 4, 'prior_strength': 6., 'noise_std': .1,
        'cov_type': 'diagonal', 'shared_cov': False}
pdfs = create_pdfs(torch.zeros(2), torch.ones(2), 3, conf)
c = pdfs.categoricalset.weights.prior.params.concentrations
assert torch.allclose(c, torch.full((3, 4), 1.5)), c
""")

make('c24-shuffle-large', 'C24', 'beer/cli/dataset.py',
 [("""            random.shuffle(uttsid)
""", """            k = min(len(uttsid), 5)
            head = uttsid[:k]
            random.shuffle(head)
            uttsid = head + random.choices(uttsid[k:], k=len(uttsid) - k) \\
                if len(uttsid) > k else head
""")],
 'a data set of more than 6 utterances, in random order',
 'some utterances are used twice and others never',
 """
import os, pickle, random, shutil, tempfile
import numpy as np, torch
from beer.cli.dataset import Dataset
tmp = tempfile.mkdtemp()
try:
    np.savez(f'{tmp}/a.npz', **{f'u{i}': np.ones((2, 2)) for i in range(12)})
    ds = Dataset(f'{tmp}/a.npz', torch.zeros(2), torch.ones(2), 24)
    for seed in range(10):
        random.seed(seed)
        ids = sorted(u.id for u in ds.utterances())
        assert len(set(ids)) == len(ids) == 12, ids
finally:
    shutil.rmtree(tmp)
""")
