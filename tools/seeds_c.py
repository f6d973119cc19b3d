from seed import make

CLI = '''
import argparse, importlib, io, logging, os, pickle, shutil, sys, tempfile
import numpy as np, torch, beer
TMP = tempfile.mkdtemp()
import atexit; atexit.register(shutil.rmtree, TMP)
def run(cmd, argv, stdin=''):
    mod = importlib.import_module('beer.cli.subcommands.' + cmd)
    p = argparse.ArgumentParser()
    mod.setup(p)
    old = sys.stdin, sys.stdout
    sys.stdin, sys.stdout = io.StringIO(stdin), io.StringIO()
    try:
        mod.main(p.parse_args([str(a) for a in argv]),
                 logging.getLogger('demo'))
        return sys.stdout.getvalue()
    finally:
        sys.stdin, sys.stdout = old
def save(name, obj):
    with open(os.path.join(TMP, name), 'wb') as f:
        pickle.dump(obj, f)
    return os.path.join(TMP, name)
def load(path):
    with open(path, 'rb') as f:
        return pickle.load(f)
def unit(first, n=2):
    g = beer.graph.Graph()
    s = [g.add_state(None)] + [g.add_state(first + i) for i in range(n)] \\
        + [g.add_state(None)]
    g.start_state, g.end_state = s[0], s[-1]
    g.add_arc(s[0], s[1], 1.)
    for i in range(1, n + 1):
        g.add_arc(s[i], s[i], .75)
        g.add_arc(s[i], s[i + 1], .25)
    return g
def emissions(n):
    torch.manual_seed(1)
    return beer.NormalSet.create(torch.zeros(2), torch.ones(2), n, 1.,
                                 noise_std=2., cov_type='diagonal')
def dataset(feats):
    path = os.path.join(TMP, 'feats.npz')
    np.savez(path, **feats)
    from beer.cli.dataset import Dataset
    return save('dataset', Dataset(path, torch.zeros(2), torch.ones(2),
                                   sum(len(x) for x in feats.values())))
def loop(names, n=2):
    units = {u: unit(n * i, n) for i, u in enumerate(names)}
    g = beer.graph.Graph()
    s, e, p = g.add_state(), g.add_state(), g.add_state()
    g.start_state, g.end_state = s, e
    g.add_arc(s, p); g.add_arc(p, e)
    st = {u: g.add_state() for u in names}
    for u in names:
        g.add_arc(p, st[u]); g.add_arc(st[u], p)
    for u in names:
        g.replace_state(st[u], units[u])
    g.normalize()
    return beer.PhoneLoop.create(
        g.compile(), {u: n * i for i, u in enumerate(names)},
        {u: n * i + n - 1 for i, u in enumerate(names)},
        emissions(n * len(names)),
        beer.Categorical.create(torch.ones(len(names)) / len(names)))
'''

make('c08-concentration-zero', 'C08', 'beer/cli/subcommands/hmm/mkphoneloop.py',
 [("    return beer.CategoricalSet.create(mean, prior_strength=concentration)",
   "    return beer.CategoricalSet.create(mean, prior_strength=concentration / size)")],
 'the bigram Dirichlet prior (dirichlet2)',
 'the concentration of each row of a bigram phone-loop is divided by the number of units',
 CLI + '''
m = loop(['a', 'b', 'c'])
ug = save('hmms', ({u: unit(2 * i) for i, u in enumerate('abc')}, emissions(6)))
g = beer.graph.Graph()
s, e, p = g.add_state(), g.add_state(), g.add_state()
g.start_state, g.end_state = s, e
g.add_arc(s, p); g.add_arc(p, e)
st = {u: g.add_state() for u in 'abc'}
for u in 'abc':
    g.add_arc(p, st[u]); g.add_arc(st[u], p)
for i, u in enumerate('abc'):
    g.replace_state(st[u], unit(2 * i))
g.normalize()
dg = save('dg', (g, {'a': 0, 'b': 2, 'c': 4}, {'a': 1, 'b': 3, 'c': 5}))
run('hmm.mkphoneloop', ['--weights-prior', 'dirichlet2', '-c', 6, dg, ug, TMP + '/m'])
c = load(TMP + '/m').categoricalset.weights.prior.params.concentrations
assert torch.allclose(c.sum(-1), torch.full((3,), 6.)), c
''')

make('c08-start-end-arcs', 'C08', 'beer/cli/subcommands/hmm/mkphoneloopgraph.py',
 [("""    for unit in start_end_units:
        src = unit2state[unit]
        dest = graph.end_state
""", """    for unit in start_end_units[:1]:
        src = unit2state[unit]
        dest = graph.end_state
""")],
 'a start/end group with several units',
 'a sequence can only end with the first unit of the start/end group',
 CLI + '''
with open(TMP + '/units', 'w') as f:
    f.write('sil nonspeech\\nspn nonspeech\\na speech\\n')
run('hmm.mkphoneloopgraph', ['-s', 'nonspeech', TMP + '/units', TMP + '/g'])
g = load(TMP + '/g')
names = {s: n for s, n in g.symbols.items()}
ends = {names[a.start] for a in g.arcs() if a.end == g.end_state}
assert ends == {'sil', 'spn'}, ends
''')

make('c09-shared-repeat', 'C09', 'beer/cli/subcommands/hmm/mkaligraph.py',
 [("""        state = graph.add_state()
        phone_states.append(state)
        graph.add_arc(last_state, state)
        last_state = state
        id2sym[i] = phone
""", """        if i > 1 and phone == seq[i - 2] and seq[i - 1] == seq[i]:
            id2sym[i] = phone
            continue
        state = graph.add_state()
        phone_states.append(state)
        graph.add_arc(last_state, state)
        last_state = state
        id2sym[i] = phone
"""), ("""    for i, phone in enumerate(seq):
        graph.replace_state(phone_states[i], phone_graphs[phone])
""", """    symbols = [phone for i, phone in enumerate(seq)
               if not (i > 1 and phone == seq[i - 2] == seq[i - 1])]
    for state, phone in zip(phone_states, symbols):
        graph.replace_state(state, phone_graphs[phone])
""")],
 'a unit repeated three times in a row in the transcription',
 'the third repetition of a unit is dropped from the alignment graph',
 CLI + '''
hm = save('hmms', ({'a': unit(0), 'b': unit(2)}, emissions(4)))
run('hmm.mkaligraph', [hm, TMP], 'u1 b a a a b\\n')
g = np.load(TMP + '/u1.npy', allow_pickle=True)[0]
assert g.n_states == 10, g.n_states
''')

make('c09-stale-graph', 'C09', 'beer/cli/subcommands/hmm/decode.py',
 [("""    count = 0
    for uttname in utts:
""", """    count = 0
    aligraph = None
    for uttname in utts:
"""), ("""        aligraph = None
        if alis:
            try:
                aligraph""", """        if alis:
            try:
                aligraph""")],
 'an utterance without alignment graph decoded after one which has a graph',
 'the graph of the previous utterance is used',
 CLI + '''
m = loop(['a', 'b'])
mean = m.modelset.original_modelset.means_precisions.posterior.params.mean
X = mean[[2, 3, 0, 1, 2, 3]].numpy()
ds = dataset({'u1': X, 'u2': X})
mp = save('model', m)
hm = save('hmms', ({'a': unit(0), 'b': unit(2)}, None))
run('hmm.mkaligraph', [hm, TMP], 'u1 a\\n')
g = np.load(TMP + '/u1.npy', allow_pickle=True)
np.savez(TMP + '/alis.npz', u1=g)
want = run('hmm.decode', ['-s', 50, mp, ds]).splitlines()[1]
got = run('hmm.decode', ['-s', 50, '-a', TMP + '/alis.npz', mp, ds]).splitlines()
assert got[0] == 'u1 a', got
assert got[1] == want, (got, want)
''')

make('c10-sorted-units', 'C10', 'beer/cli/subcommands/hmm/posteriors.py',
 [("    for i, unit in enumerate(start_pdf):",
   "    for i, unit in enumerate(sorted(start_pdf)):")],
 'a phone-loop whose units are not declared in alphabetical order',
 'the columns of the posteriors of the units are permuted',
 CLI + '''
m = loop(['z', 'a'])
mean = m.modelset.original_modelset.means_precisions.posterior.params.mean
ds = dataset({'u1': mean[[0, 0, 1, 1]].numpy()})
run('hmm.posteriors', ['-s', 50, save('m', m), ds, TMP])
p = np.load(TMP + '/u1.npy')
assert p[0, 0] > .9, p
''')

make('c10-repeated-unit', 'C10', 'beer/cli/subcommands/hmm/decode.py',
 [("""            last_sym = state2sym[state]
            phones.append(last_sym)
        elif per_frame:
            phones.append(last_sym)
        previous_state = state
""", """            last_sym = state2sym[state]
            phones.append(last_sym)
            previous_state = state
        elif per_frame:
            phones.append(last_sym)
""")],
 'a unit which follows itself',
 'a repeated unit is written once',
 CLI + '''
m = loop(['a', 'b'])
mean = m.modelset.original_modelset.means_precisions.posterior.params.mean
ds = dataset({'u1': mean[[0, 1, 0, 1]].numpy()})
out = run('hmm.decode', ['-s', 50, save('m', m), ds])
assert out.split() == ['u1', 'a', 'a'], out
''')

make('c13-union', 'C13', 'beer/inference/objectives.py',
 [("    for key in keys2.difference(keys1):\n        new_stats[key] = acc_stats2[key]\n",
   "    for key in keys2.difference(keys1):\n        new_stats.setdefault(key, acc_stats2[key] * (not keys1))\n")],
 'two objectives with statistics of different parameters',
 'the statistics of a parameter which is only in the second objective are lost',
 '''
from beer.inference.objectives import add_acc_stats
assert add_acc_stats({'a': 1}, {'b': 2, 'a': 3}) == {'a': 4, 'b': 2}
''')

make('c11-update-datasize', 'C11', 'beer/cli/subcommands/hmm/accumulate.py',
 [("    elbo = beer.evidence_lower_bound(datasize=dataset.size)\n    count = 0\n",
   "    elbo = None\n    count = 0\n"),
  ("        elbo += beer.evidence_lower_bound(model, utt.features,\n",
   "        utt_elbo = beer.evidence_lower_bound(model, utt.features,\n"),
  ("        logger.debug(f'ELBO: {float(elbo)}')\n",
   "        elbo = utt_elbo if elbo is None or count == 2 else elbo + utt_elbo\n        logger.debug(f'ELBO: {float(elbo)}')\n")],
 'a job with three utterances or more',
 'the statistics of the first two utterances of a job are dropped',
 CLI + '''
m = loop(['a', 'b'])
torch.manual_seed(3)
F = {f'u{i}': torch.randn(6, 2).numpy() for i in range(4)}
ds = dataset(F)
mp = save('m', m)
run('hmm.accumulate', [mp, ds, TMP + '/all'], 'u0\\nu1\\nu2\\nu3\\n')
elbo, n = load(TMP + '/all')
assert elbo._minibatchsize == 24, elbo._minibatchsize
''')
