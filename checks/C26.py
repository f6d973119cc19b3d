"""Recipes of training: every interruption, failure, split into jobs and
resumption leads to the same models."""
import os
import pickle
import re
import types
from mc import recipe as R
from mc.recipe_sem import Failure      # noqa: F401

PROP = 'C26'
CHUNK = 1
BOUNDS = {
    'quick': '7 recipes; uninterrupted: 1, 2, 3, 5, 7 jobs x both orders of '
             'the tasks x options x 1-3 epochs, every order of the concurrent '
             'updates of 2-3 languages; a crash before or after, or a '
             'failure of, every command of a training of 2 epochs with 2 '
             'jobs, then resumption with 2 (crash) or 3 jobs; more epochs '
             'later, with a crash at every command of the extension; 11 '
             'epochs with a crash before every command of the last; a crash '
             'before every update and split of 11 jobs, then 2 jobs',
    'thorough': 'also 1 and 3 jobs at the crash, resumption with 1, 2, 3 '
                'jobs, 3 epochs, the crashes and failures of the last two of '
                '11 epochs, every pair of crashes of the first recipe',
}
ASSUMPTIONS = [
    'crashes and failures happen between commands (the files written by one '
    'command are complete or absent: this is C35)',
    'the commands are stood for by terms: the content of an output is a '
    'function of the contents of the inputs, of the options, and (training '
    'commands) of the state of the optimizer',
    'qsub runs the tasks one after the other, in either order',
]
N = 4       # parts of the enumeration of the points of a history


# Recipes ------------------------------------------------------------------

class Spec:
    'A recipe: inputs, arguments, expected pipeline.'
    dims = None
    langs = None
    finals = ('final.mdl',)
    strong = True
    extend = False
    options = ((),)

    def setup(self, r):
        pass

    def accumulate(self, ref, mdl, out, *opts, uttids='data/uttids',
                   ds='%ds.pkl'):
        with open(f'{ref.r.w}/{uttids}') as f:
            utts = f.read()
        ref.beer('hmm', 'accumulate', *opts, mdl, ds, out, stdin=utts)

    def update(self, ref, src, acc, dst, state='@optim'):
        ref.beer('hmm', 'update', '-o', state, src, dst,
                 stdin=ref.path(acc[1:]) + '\n')

    def phoneloop(self, ref, opts, out, *conc, group=True):
        ref.beer('hmm', 'mkphones', '-d', '%ds.pkl', '%conf.yml',
                 '%lang/units', '@hmms')
        ref.beer('hmm', 'mkphoneloopgraph',
                 *(('--start-end-group', 'non-speech-unit') if group else ()),
                 '%lang/units', '@ploop')
        ref.beer('hmm', 'mkdecodegraph', '@ploop', '@hmms', '@decode')
        prior = opts.get('--prior', 'gamma_dirichlet_process')
        ref.beer('hmm', 'mkphoneloop', *conc, '--weights-prior', prior,
                 '@decode', '@hmms', out)


class Aud(Spec):
    name = 'aud'
    extend = True
    options = ((), ('--acoustic-scale', '.5'), ('--prior', 'dirichlet'))

    def args(self, epochs):
        return ('conf.yml', 'lang', 'data', 'ds.pkl', epochs, 'exp/out')

    def reference(self, ref, epochs, opts):
        self.phoneloop(ref, opts, '@0.mdl', '--concentration', 50)
        return self.train(ref, epochs, opts)

    def train(self, ref, epochs, opts, *extra):
        for e in range(1, epochs + 1):
            self.accumulate(ref, f'@{e - 1}.mdl', '@acc', '-s',
                            opts.get('--acoustic-scale', '1.'), *extra)
            self.update(ref, f'@{e - 1}.mdl', '@acc', f'@{e}.mdl')
        return dict({f'{e}.mdl': f'{e}.mdl' for e in range(epochs + 1)},
                    **{'final.mdl': f'{epochs}.mdl'})


class Bigram(Aud):
    name = 'aud_bigram'

    def args(self, epochs):
        return ('ploop.mdl', 'data', 'ds.pkl', epochs, 'exp/out')

    def reference(self, ref, epochs, opts):
        ref.beer('hmm', 'mkphoneloopbigram', '--weights-prior',
                 opts.get('--prior', 'gamma_dirichlet_process'),
                 '%ploop.mdl', '@0.mdl')
        return self.train(ref, epochs, opts)


class Monophone(Aud):
    name = 'monophone'
    options = ((), ('--prior', 'dirichlet'))

    def reference(self, ref, epochs, opts):
        self.phoneloop(ref, opts, '@0.mdl')
        os.makedirs(ref.path('graphs'))
        with open(f'{ref.r.w}/data/trans') as f:
            ref.beer('hmm', 'mkaligraph', '@hmms', '@graphs', stdin=f.read())
        ref.zip('graphs', 'alis.npz')
        return dict(self.train(ref, epochs, opts, '--alis', '@alis.npz'),
                    **{'alis.npz': 'alis.npz'})


class SubspaceMonophone(Spec):
    name = 'subspace_monophone'
    strong = False
    finals = ('final.mdl', 'gsm_final.mdl', 'units_posts_final.pkl')
    options = ((), ('--latent-dim', '4'), ('--classes', 'lang/units'),
               ('with-alis', 'no'))

    def setup(self, r, opts=()):
        r.put('hmm/final.mdl', 'a model\n')
        if dict(zip(*[iter(opts)] * 2)).get('with-alis') != 'no':
            alis(r, 'hmm')

    def args(self, epochs):
        return ('conf.yml', 'hmm', 'data', 'ds.pkl', epochs, 'exp/out')

    def gsm(self, ref, src, dst, epochs, *extra, prev='tmp'):
        ref.beer('shmm', 'train', '-o', '@gsm_optim', '--epochs', epochs,
                 '--learning-rate-std', '1e-3', '--latent-nsamples', 10,
                 '--params-nsamples', 5, *extra, f'@gsm_{src}',
                 f'@posts_{src}', f'@{prev}', f'@gsm_{dst}', f'@posts_{dst}',
                 f'@{dst}.mdl')

    def reference(self, ref, epochs, opts):
        cls = (('-c', '%lang/units') if '--classes' in opts else ())
        ref.beer('shmm', 'mksphoneloop', *cls, '-g', 'speech-unit', '-l',
                 opts.get('--latent-dim', 10), '%conf.yml', '%hmm/final.mdl',
                 '@gsm_init', '@posts_init', '@init.mdl')
        self.gsm(ref, 'init', '0', 15000, prev='init.mdl')
        extra = () if opts.get('with-alis') == 'no' else (
            '--alis', '%hmm/alis.npz')
        return self.train(ref, epochs, extra)

    def train(self, ref, epochs, acc=(), gsm=()):
        for e in range(1, epochs + 1):
            self.accumulate(ref, f'@{e - 1}.mdl', '@acc', *acc)
            self.update(ref, f'@{e - 1}.mdl', '@acc', '@tmp')
            self.gsm(ref, f'{e - 1}', f'{e}', 5000 if e == epochs else 1000,
                     *gsm)
        return {'final.mdl': f'{epochs}.mdl',
                'gsm_final.mdl': f'gsm_{epochs}',
                'units_posts_final.pkl': f'posts_{epochs}'}


class SubspaceAud(SubspaceMonophone):
    name = 'subspace_aud'
    options = ((), ('--prior', 'dirichlet'))

    def setup(self, r, opts=()):
        r.put('gsm/gsm_final.mdl', pickle.dumps(types.SimpleNamespace(
            transform=types.SimpleNamespace(in_dim=7))))

    def args(self, epochs):
        return ('conf.yml', 'gsm', 'lang', 'data', 'ds.pkl', epochs,
                'exp/out')

    def reference(self, ref, epochs, opts):
        self.phoneloop(ref, opts, '@hmm_init', '--concentration', 50)
        ref.beer('shmm', 'mksphoneloop', '-g', 'speech-unit', '-l', 7,
                 '%conf.yml', '@hmm_init', '/dev/null', '@posts_0',
                 '@init.mdl')
        with open(f'{ref.r.w}/gsm/gsm_final.mdl', 'rb') as f, \
                open(ref.path('gsm_0'), 'wb') as g:
            g.write(f.read())
        ref.beer('shmm', 'init', '@gsm_0', '@posts_0', '@init.mdl', '@0.mdl')
        return self.train(ref, epochs, gsm=('--posteriors',))


class HSubspaceAud(Spec):
    name = 'hsubspace_aud'
    strong = False
    options = ((), ('--prior', 'dirichlet'), ('--sgd', 'true'),
               ('--cleanup', 'false'), ('--nosil', 'false'),
               ('--language-init-epochs', '1'))

    @property
    def finals(self):
        return ('final.mdl', 'hgsm_final.mdl', 'units_posts_final.pkl',
                'final_xx.mdl')

    def setup(self, r, opts=()):
        r.put('gsm/hgsm_final.mdl', pickle.dumps(
            {'lang_latent_dim': 3, 'unit_latent_dim': 9}))

    def args(self, epochs):
        return ('conf.yml', 'gsm', 'lang', 'data', 'ds.pkl', epochs,
                'exp/out', 'xx')

    def map(self, ref, name, pairs):
        with open(ref.path(name), 'w') as f:
            f.writelines(f'{p} {x}\n' for p, x in pairs)
        return '@' + name

    def hgsm(self, ref, src, dst, map_, epochs, *extra):
        ref.beer('hshmm', 'train', '-o', '@hgsm_optim', '--epochs', epochs,
                 '--learning-rate-std', '1e-3', '--unit-latent-nsamples', 10,
                 '--lang-latent-nsamples', 5, '--params-nsamples', 5, *extra,
                 f'@hgsm_{src}', f'@posts_{src}', map_, f'@hgsm_{dst}',
                 f'@posts_{dst}', f'@{dst}.mdl')

    def reference(self, ref, epochs, opts):
        self.phoneloop(ref, opts, '@hmm_init', '--concentration', 50,
                       group=opts.get('--nosil') == 'false')
        m = self.map(ref, 'map0', [(ref.path('hmm_init'), 'xx')])
        ref.beer('hshmm', 'mksphoneloop', '-g', 'speech-unit', '-l', 3,
                 '-t', 9, '%conf.yml', m, '@tmp_hgsm', '@posts_0',
                 '@init.mdl')
        with open(f'{ref.r.w}/gsm/hgsm_final.mdl', 'rb') as f, \
                open(ref.path('hgsm_given'), 'wb') as g:
            g.write(f.read())
        ref.beer('hshmm', 'init', 'xx', '@tmp_hgsm', '@hgsm_given',
                 '@posts_0', '@init.mdl', '@0.mdl', '@hgsm_0')
        sgd = ('--use-sgd',) if opts.get('--sgd') == 'true' else ()
        first = int(opts.get('--language-init-epochs', -10))
        for e in range(1, epochs + 1):
            self.accumulate(ref, f'@{e - 1}.mdl_xx', '@acc')
            self.update(ref, f'@{e - 1}.mdl_xx', '@acc', '@tmp')
            m = self.map(ref, f'map{e}', [(ref.path('tmp'), 'xx')])
            self.hgsm(ref, f'{e - 1}', f'{e}', m,
                      5000 if e == epochs else 1000, '--skip-root-subspace',
                      *sgd, *(('--skip-unit-posterior',) if e <= first
                              else ()))
        return {'final.mdl': f'{epochs}.mdl',
                'hgsm_final.mdl': f'hgsm_{epochs}',
                'units_posts_final.pkl': f'posts_{epochs}',
                'final_xx.mdl': f'{epochs}.mdl_xx'}


class HSubspaceMonophone(HSubspaceAud):
    name = 'hsubspace_monophone'
    langs = ('A', 'b2')
    options = ((), ('--unit-latent-dim', '4'), ('--lang-latent-dim', '5'),
               ('--sgd', 'true'), ('--cleanup', 'false'), ('three', '1'))

    @property
    def finals(self):
        return ('final.mdl', 'hgsm_final.mdl', 'units_posts_final.pkl') + \
            tuple(f'final_{x}.mdl' for x in self.langs)

    def setup(self, r, opts=()):
        self.langs = ('A', 'b2', 'C') if 'three' in opts else ('A', 'b2')
        for x in self.langs:
            r.put(f'hmm_{x}/final.mdl', f'model of {x}\n')
            r.put(f'ds_{x}.pkl', f'data of {x}\n')
            r.put(f'data_{x}/uttids', ''.join(
                f'{x}-{i}\n' for i in range(3 if x == 'A' else 4)))
        alis(r, 'hmm_A')

    def args(self, epochs):
        return ('conf.yml', ' '.join(f'{x},hmm_{x}' for x in self.langs),
                ' '.join(f'{x},data_{x}' for x in self.langs),
                ' '.join(f'{x},ds_{x}.pkl' for x in self.langs), epochs,
                'exp/out')

    def reference(self, ref, epochs, opts):
        m = self.map(ref, 'map', [(f'{ref.r.w}/hmm_{x}/final.mdl', x)
                                  for x in self.langs])
        ref.beer('hshmm', 'mksphoneloop', '-g', 'speech-unit', '-l',
                 opts.get('--lang-latent-dim', 2), '-t',
                 opts.get('--unit-latent-dim', 10), '%conf.yml', m,
                 '@hgsm_init', '@posts_init', '@init.mdl')
        m = self.map(ref, 'mapi', [(ref.path(f'init.mdl_{x}'), x)
                                   for x in self.langs])
        sgd = ('--use-sgd',) if opts.get('--sgd') == 'true' else ()
        self.hgsm(ref, 'init', '0', m, 15000, *sgd)
        for e in range(1, epochs + 1):
            for x in self.langs:
                self.accumulate(
                    ref, f'@{e - 1}.mdl_{x}', f'@acc_{x}',
                    *(('--alis', '%hmm_A/alis.npz') if x == 'A' else ()),
                    uttids=f'data_{x}/uttids', ds=f'%ds_{x}.pkl')
                self.update(ref, f'@{e - 1}.mdl_{x}', f'@acc_{x}',
                            f'@tmp_{x}', state=f'@optim_{x}')
            m = self.map(ref, f'map{e}', [(ref.path(f'tmp_{x}'), x)
                                          for x in self.langs])
            self.hgsm(ref, f'{e - 1}', f'{e}', m,
                      5000 if e == epochs else 1000, *sgd)
        return dict({'final.mdl': f'{epochs}.mdl',
                     'hgsm_final.mdl': f'hgsm_{epochs}',
                     'units_posts_final.pkl': f'posts_{epochs}'},
                    **{f'final_{x}.mdl': f'{epochs}.mdl_{x}'
                       for x in self.langs})


def alis(r, name):
    import io
    import zipfile
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, 'w') as z:
        z.writestr('u1.npy', "#T\n('graph', 'graph', None)")
    r.put(f'{name}/alis.npz', buf.getvalue())


SPECS = {c.name: c for c in (Aud, Bigram, Monophone, SubspaceMonophone,
                             SubspaceAud, HSubspaceAud, HSubspaceMonophone)}


# Scenarios ----------------------------------------------------------------

def cases(tier):
    big = tier == 'thorough'
    for n in (1, 2, 3) if big else (2,):
        yield {'k': 'real', 'recipe': 'aud', 'njobs': n}
    for name, cls in SPECS.items():
        base = {'recipe': name}
        for opts in cls.options:
            yield dict(base, k='run', njobs=2, epochs=2, opts=list(opts))
        for njobs in (1, 2, 3, 5, 7):
            for rev in (0, 1):
                yield dict(base, k='run', njobs=njobs, epochs=1 + rev,
                           rev=rev, opts=[])
        yield dict(base, k='run', njobs=2, epochs=3, opts=[])
        yield dict(base, k='again', njobs=2, epochs=2)
        yield dict(base, k='wide')
        for mode in ('before', 'after', 'fail'):
            for n1 in ((1, 2, 3) if big else (2,)):
                for n2 in ((1, 2, 3) if big else
                           (3,) if mode == 'after' else (2,)):
                    for part in range(N):
                        yield dict(base, k='crash', mode=mode, n1=n1, n2=n2,
                                   epochs=3 if big else 2, part=part)
            for part in range(N) if big else [None] if mode == 'before' \
                    else ():
                yield dict(base, k='late', mode=mode, part=part)
        if cls.extend:
            yield dict(base, k='extend')
            for mode in ('before', 'after', 'fail'):
                for part in range(N):
                    yield dict(base, k='extend-crash', mode=mode, part=part)
    for langs in (2, 3):
        yield {'k': 'orders', 'langs': langs,
               'recipe': 'hsubspace_monophone'}
    if big:
        for part in range(8 * N):
            yield {'k': 'two', 'recipe': 'aud', 'part': part}


def run(case, cx):
    spec = SPECS[case['recipe']]()
    globals()['run_' + case['k'].replace('-', '_')](spec, case, cx)


class Run:
    'A scratch directory with a recipe and its expected outputs.'

    def __init__(self, spec, cx, epochs, opts=()):
        self.spec, self.cx, self.opts = spec, cx, tuple(opts)
        self.epochs = epochs
        self.r = R.Recipe(cx.tmpdir())
        try:
            spec.setup(self.r, self.opts)
        except TypeError:
            spec.setup(self.r)
        self.pairs = dict(zip(*[iter(self.opts)] * 2))
        self.expected(epochs)

    def expected(self, epochs):
        self.epochs = epochs
        ref = R.Reference(self.r, f'ref{epochs}')
        out = self.spec.reference(ref, epochs, self.pairs)
        self.want = {k: ref.term(v) for k, v in out.items()}

    def reset(self):
        import shutil
        shutil.rmtree(f'{self.r.w}/exp', ignore_errors=True)

    def run(self, njobs, **kw):
        opts = [x for k, v in self.pairs.items() if k.startswith('--')
                for x in (k, v)]
        # The options of the parallel environment come first.
        code = self.r.run(self.spec.name, '--parallel-njobs', njobs, *opts,
                          *self.spec.args(self.epochs), **kw)
        ev = self.r.events()
        self.cx.step(sum(x[0] == 'start' for x in ev))
        return code, ev

    def has(self, name):
        return os.path.exists(f'{self.r.w}/exp/out/{name}')

    def verify(self, what, strong):
        for name, want in self.want.items():
            got = self.r.term(f'exp/out/{name}')
            self.cx.state(what, name, got)
            i = 0 if strong else 1
            if got is None:
                self.cx.fail(f'{what}: {name} is missing '
                             f'({self.r.output()[-300:]})')
            self.cx.same(got[i], want[i], f'{what}: content of {name}')
        self.cx.trace()

    def complete(self, njobs, what, strong=True, **kw):
        code, ev = self.run(njobs, **kw)
        if code != 0:
            errs = [x[1] for x in ev if x[0] == 'error']
            self.cx.fail(f'{what}: exit status {code} {errs} '
                         f'({self.r.output()[-300:]})')
        self.verify(what, strong)
        return ev


def starts(ev):
    return [x[1] for x in ev if x[0] == 'start']


def run_run(spec, case, cx):
    r = Run(spec, cx, case['epochs'], case['opts'])
    r.complete(case['njobs'], 'uninterrupted', reverse=case.get('rev'))
    cx.label(f'{spec.name} uninterrupted')


def run_again(spec, case, cx):
    'Nothing is done when the models are there.'
    r = Run(spec, cx, case['epochs'])
    r.complete(2, 'first')
    ev = r.complete(3, 'again')
    done = [x for x in starts(ev) if x.startswith('beer') or ' > ' in x and
            x.split()[0] in ('hmm', 'shmm', 'hshmm')]
    cx.same(done, [], 'commands run again by a finished recipe')
    cx.label('nothing to do')


def points(r, cx, njobs, keep=lambda x: True):
    'Labels of the commands of an uninterrupted history.'
    ev = r.complete(njobs, 'uninterrupted')
    labels = sorted({x for x in starts(ev) if keep(x)})
    if not labels:
        cx.fail('no command to interrupt')
    return labels


def is_task(label):
    return label.split()[0] in ('hmm', 'shmm', 'hshmm', 'features', 'dataset',
                                'zip')


def interrupt(r, cx, label, mode, njobs):
    'True if the history was interrupted there.'
    if mode == 'fail' and not is_task(label):
        return False
    code, ev = r.run(njobs, plan={'fault': [label, mode]})
    if label not in starts(ev):
        return False
    what = f'{mode} {label}'
    if mode == 'fail':
        if code == 0:
            cx.fail(f'{what}: the recipe ends with status 0')
        bad = [x for x in r.spec.finals if x == 'final.mdl' and r.has(x)]
        cx.same(bad, [], f'{what}: final model after a failure')
    elif code != -9:
        cx.fail(f'{what}: the recipe was killed, status {code}')
    cx.label(f'{mode}')
    return True


def run_crash(spec, case, cx):
    r = Run(spec, cx, case['epochs'])
    mode = case['mode']
    for i, label in enumerate(points(r, cx, case['n1'])):
        if i % N != case['part']:
            continue
        r.reset()
        if interrupt(r, cx, label, mode, case['n1']):
            r.complete(case['n2'], f'resumed after {mode} {label}',
                       spec.strong)
            cx.state(label, mode)


def run_wide(spec, case, cx):
    'More than nine jobs, then fewer of them.'
    r = Run(spec, cx, 2)
    for label in points(r, cx, 11, lambda x: x.startswith('hmm update')
                        or ' > exp/out/split' in x):
        r.reset()
        if interrupt(r, cx, label, 'before', 11):
            r.complete(2, f'11 jobs, {label}, then 2 jobs', spec.strong)
            cx.state('wide', label)


def run_late(spec, case, cx):
    'A history of more than nine epochs interrupted at the end.'
    epochs = 11
    r = Run(spec, cx, epochs)
    late = re.compile(r'(epoch|\b|_)(10|11)(/|\b|_)'
                      if case['part'] is not None else
                      r'(epoch|\b|_)11(/|\b|_)')
    labels = points(r, cx, 1, lambda x: late.search(x) and
                    (is_task(x) or x.startswith('cp')))
    for i, label in enumerate(labels):
        if case['part'] is not None and i % N != case['part']:
            continue
        r.reset()
        if interrupt(r, cx, label, case['mode'], 1):
            r.complete(1, f'resumed after {case["mode"]} {label}',
                       spec.strong)


def run_extend(spec, case, cx):
    'More epochs, later.'
    r = Run(spec, cx, 1)
    for epochs, njobs in ((1, 2), (2, 1), (3, 3), (9, 2), (10, 2), (12, 2)):
        if epochs != 1:
            r.expected(epochs)
        r.complete(njobs, f'extended to {epochs}')
        cx.state('extended', epochs)


def run_extend_crash(spec, case, cx):
    r = Run(spec, cx, 1)
    r.complete(2, 'one epoch')
    first = dict(r.want)
    r.expected(2)
    labels = points(r, cx, 2)
    for i, label in enumerate(labels):
        if i % N != case['part']:
            continue
        r.reset()
        r.epochs, want, r.want = 1, r.want, first
        r.complete(2, 'one epoch')
        r.epochs, r.want = 2, want
        if case['mode'] == 'fail' and not is_task(label):
            continue
        code, ev = r.run(2, plan={'fault': [label, case['mode']]})
        if label not in starts(ev):
            continue
        if case['mode'] == 'fail' and code == 0:
            cx.fail(f'fail {label}: the recipe ends with status 0')
        r.complete(2, f'two epochs resumed after {case["mode"]} {label}',
                   spec.strong)
        cx.label('extension interrupted')


def run_orders(spec, case, cx):
    'Every order of the concurrent updates.'
    import itertools
    opts = ('three', '1') if case['langs'] == 3 else ()
    r = Run(spec, cx, 2, opts)
    labels = points(r, cx, 2)
    cx.tmp = None
    groups = [[x for x in labels if re.match(rf'hmm {c} > .*[/_]?{lang}\b', x)
               or re.match(rf'hmm {c} > .*\b{lang}_', x)]
              for c in ('update',) for lang in spec.langs]
    for perm in itertools.permutations(range(case['langs'])):
        turns = {}
        for j in range(min(map(len, groups))):
            seq = [groups[i][j] for i in perm]
            turns.update(zip(seq[1:], seq[:-1]))
        r.reset()
        ev = r.complete(2, f'order {perm}', plan={'turns': turns})
        cx.state('order', perm)
        cx.label('order of updates')


def run_real(spec, case, cx):
    '''The same histories with the real program: the models are those of the
    commands executed one by one, without any split or interruption.'''
    import sys
    from mc import cli, phones
    from checks.C22 import load, state_of
    r = R.Recipe(cx.tmpdir())
    conf, units = phones.write('silfirst', 'sil', r.tmp)
    ds = phones.write_dataset(cli, r.tmp, {
        u: phones.features(12 + i, salt=i) for i, u in enumerate(r.UTTS)})
    os.makedirs(f'{r.w}/lang', exist_ok=True)
    os.replace(units, f'{r.w}/lang/units')
    args = (conf, 'lang', 'data', ds, 2, 'exp/out')
    real = [sys.executable, cli.SCRIPT]
    o = f'{r.tmp}/ref.'
    cli.run('hmm', 'mkphones', '-d', ds, conf, f'{r.w}/lang/units',
            o + 'hmms', seed=1)
    cli.run('hmm', 'mkphoneloopgraph', '--start-end-group',
            'non-speech-unit', f'{r.w}/lang/units', o + 'graph')
    cli.run('hmm', 'mkdecodegraph', o + 'graph', o + 'hmms', o + 'decode')
    cli.run('hmm', 'mkphoneloop', '--concentration', '50', '--weights-prior',
            'gamma_dirichlet_process', o + 'decode', o + 'hmms', o + '0')
    for e in (1, 2):
        cli.run('hmm', 'accumulate', o + str(e - 1), ds, o + 'acc',
                stdin='\n'.join(r.UTTS) + '\n')
        cli.run('hmm', 'update', '-o', o + 'optim', o + str(e - 1),
                o + str(e), stdin=o + 'acc\n')
    want = state_of(load(o + '2'))
    os.environ['OMP_NUM_THREADS'] = '1'
    os.environ['PYTHONPATH'] = cli.REPO
    history = [
        (case['njobs'], ['hmm update > exp/out/2.mdl#1', 'before'], -9),
        (3, None, 0), (1, None, 0)]
    for njobs, fault, status in history:
        plan = {'real': real, **({'fault': fault} if fault else {})}
        code = r.run('aud', '--parallel-njobs', njobs, *args, plan=plan)
        cx.step(len(starts(r.events())))
        cx.same(code, status, f'exit status {r.output()[-500:]}')
        cx.same(os.path.exists(f'{r.w}/exp/out/final.mdl'), not fault,
                'existence of the final model')
    got = state_of(load(f'{r.w}/exp/out/final.mdl'))
    cx.same(sorted(got), sorted(want), 'parameters of the trained model')
    for k in want:
        cx.close(got[k], want[k], f'{k} of the trained model', 1e-4, 1e-5)
        cx.state(k)
    cx.trace()
    cx.label('real program')


def run_two(spec, case, cx):
    'Two crashes.'
    r = Run(spec, cx, 2)
    labels = points(r, cx, 2)
    k = 0
    for a in labels:
        for ma in ('before', 'after'):
            for b in labels:
                k += 1
                if k % (8 * N) != case['part']:
                    continue
                r.reset()
                if not interrupt(r, cx, a, ma, 2):
                    continue
                if interrupt(r, cx, b, 'before', 3):
                    cx.label('two crashes')
                r.complete(2, f'resumed after {ma} {a}, before {b}',
                           spec.strong)
