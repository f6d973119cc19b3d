"""Planted bugs: incomplete outputs, ..."""
from seed import make
from seeds_c import CLI

KILL = CLI + '''
import resource, signal
def killed(size, *args, stdin=''):
    """Run the command in a process killed when a file reaches this size."""
    pid = os.fork()
    if pid == 0:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
        try:
            run(*args, stdin=stdin)
        finally:
            os._exit(0)
    return os.waitpid(pid, 0)[1]
'''

make('c35-periodic-stats', 'C35', 'beer/cli/subcommands/hmm/accumulate.py',
 [("""        logger.debug(f'ELBO: {float(elbo)}')
        count += 1
""", """        logger.debug(f'ELBO: {float(elbo)}')
        count = count + 1
        # Do not lose everything if the job is stopped.
        with open_output(args.out) as f:
            pickle.dump((elbo, count), f)
""")],
 'the command killed after the first of several utterances',
 'the statistics of a part of the utterances have the name of the result: the resumed recipe takes them for the complete ones',
 KILL + """
feats = {f'u{i}': np.random.RandomState(i).randn(5, 2) for i in range(2)}
ds, m = dataset(feats), save('m', loop('ab'))
import beer.cli.dataset as D, time
# Killed when it asks for the second utterance.
get = D.Dataset.__getitem__
def item(self, key):
    if key == 'u1':
        os.kill(os.getpid(), 9)
    return get(self, key)
pid = os.fork()
if pid == 0:
    D.Dataset.__getitem__ = item
    try:
        run('hmm.accumulate', [m, ds, TMP + '/acc'], stdin='u0\\nu1\\n')
    finally:
        os._exit(0)
assert os.waitpid(pid, 0)[1] == 9
assert not os.path.exists(TMP + '/acc')
""")

make('c35-epoch-model', 'C35', 'beer/cli/subcommands/hmm/train.py',
 [("""                elbo = beer.evidence_lower_bound(datasize=dataset.size)
                optim.init_step()
                count = 0
""", """                elbo = beer.evidence_lower_bound(datasize=dataset.size)
                count = 0
                if i >= n_utts and epoch < args.epochs:
                    # Keep the model of the epoch.
                    with open(args.out, 'wb') as f:
                        pickle.dump(model, f)
                optim.init_step()
""")],
 'training for several epochs, killed before the end',
 'the model of an epoch (complete or not) is taken for the result',
 KILL + """
feats = {f'u{i}': np.random.RandomState(i).randn(5, 2) for i in range(2)}
ds, m = dataset(feats), save('m', loop('ab'))
assert os.WIFSIGNALED(killed(1000, 'hmm.train', ['-e', 2, m, ds, TMP + '/out']))
assert not os.path.exists(TMP + '/out')
""")

make('c35-remove-first', 'C35', 'beer/cli/subcommands/dataset/create.py',
 [("""    logger.debug('saving the dataset on disk...')
""", """    logger.debug(f'saving the dataset on disk ({args.out})...')
    if os.path.exists(args.out):
        os.remove(args.out)
""")],
 'the data set created over a previous one, killed before its end',
 'the previous data set is lost without a new one',
 KILL + """
feats = {f'u{i}': np.random.RandomState(i).randn(5, 2) for i in range(2)}
ds = dataset(feats)
data = open(ds, 'rb').read()
assert os.WIFSIGNALED(killed(50, 'dataset.create', [TMP, TMP + '/feats.npz', ds]))
assert open(ds, 'rb').read() == data
""")

HDR = '''
import copy, io, os, pickle, torch, numpy as np, beer
from beer.graph import CompiledGraph
def hmm():
    A = torch.tensor([[.5, .5], [.0, 1.]]).log()
    g = CompiledGraph(torch.tensor([.5, .5]).log(),
                      torch.tensor([.5, .5]).log(), A, [0, 1])
    torch.manual_seed(0)
    ms = beer.NormalSet.create(torch.zeros(2), torch.ones(2), 2,
                               cov_type='diagonal')
    return beer.HMM.create(g, ms)
'''

make('c36-llh-memo', 'C36', 'beer/models/hmm.py',
 [("""        order = inference_graph.pdf_id_mapping
        return self.modelset.expected_log_likelihood(stats, order)
""", """        order = tuple(inference_graph.pdf_id_mapping)
        key = 'pc_llhs', order, len(stats)
        if key not in self.cache:
            self.cache[key] = self.modelset.expected_log_likelihood(
                stats, list(order))
        return self.cache[key]
""")],
 'two sequences of the same length evaluated one after the other without objective in between (decoding of a data set)',
 'the second has the path (or the posteriors) of the first',
 HDR + '''
m = hmm()
a, b = torch.full((3, 2), -4.), torch.full((3, 2), 4.)
want = copy.deepcopy(m).posteriors(b)
m.posteriors(a)
assert torch.allclose(m.posteriors(b), want)
''')

make('c36-floor', 'C36', 'beer/graph.py',
 [("            log_A = self.trans_log_probs\n",
   "            log_A = self.trans_log_probs.clamp_(min=-50.)\n")],
 'a graph with forbidden transitions, then data that only a forbidden transition explains',
 'training a model changes its graph: forbidden transitions become possible',
 HDR + '''
m = hmm()
before = m.graph.trans_log_probs.clone()
beer.evidence_lower_bound(m, torch.randn(4, 2))
assert torch.equal(before, m.graph.trans_log_probs)
''')

make('c37-train-mapping', 'C37', 'recipes/aud/steps/score_aud.sh',
 [("   python utils/maptrans.py --unk '<unk>' $au_mapping $hyp_ali \\\n",
   "   python utils/maptrans.py --unk '<unk>' $outdir/au_phone $hyp_ali \\\n")],
 'the option --au-mapping',
 'the error rate of a test set uses a mapping estimated on the test set',
 '''
import os, shutil, subprocess, sys, tempfile
d = tempfile.mkdtemp()
try:
    for x in ('steps', 'utils', 'path.sh'):
        src = 'recipes/aud/' + x
        (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, d + '/' + x)
    os.mkdir(d + '/bin')
    for n, t in (('python', f'#!/bin/bash\\nexec {sys.executable} "$@"\\n'), ('activate', '')):
        open(f'{d}/bin/{n}', 'w').write(t)
        os.chmod(f'{d}/bin/{n}', 0o755)
    open(d + '/ref', 'w').write('u1 a b a b\\n')
    open(d + '/hyp', 'w').write('u1 X Y X Y\\n')
    open(d + '/map', 'w').write('X b\\nY a\\n')
    env = dict(os.environ, PATH=d + '/bin:/usr/bin:/bin')
    subprocess.run(['bash', 'steps/score_aud.sh', '--au-mapping', 'map', 'ref', 'hyp', 'out'],
                   cwd=d, env=env, check=True)
    assert open(d + '/out/au_phone_trans').read().split() == 'u1 b a b a'.split()
finally:
    shutil.rmtree(d)
''')

make('c37-ignored-failure', 'C37', 'recipes/aud/steps/score_ter.sh',
 [("        $hyp_ali > $outdir/ter || exit 1\n",
   "        $hyp_ali | tee $outdir/ter || exit 1\n")],
 'a failure of the program computing the error rate',
 'the status of the program is lost: an empty score is marked as done',
 '''
import os, shutil, subprocess, sys, tempfile
d = tempfile.mkdtemp()
try:
    for x in ('steps', 'utils', 'path.sh'):
        src = 'recipes/aud/' + x
        (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, d + '/' + x)
    os.mkdir(d + '/bin')
    for n, t in (('python', '#!/bin/bash\\nexit 1\\n'), ('activate', '')):
        open(f'{d}/bin/{n}', 'w').write(t)
        os.chmod(f'{d}/bin/{n}', 0o755)
    open(d + '/ref', 'w').write('u1 a b a b\\n')
    env = dict(os.environ, PATH=d + '/bin:/usr/bin:/bin')
    code = subprocess.run(['bash', 'steps/score_ter.sh', 'ref', 'ref', 'out'], cwd=d, env=env).returncode
    assert code != 0, code
finally:
    shutil.rmtree(d)
''')
