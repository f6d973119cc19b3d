"""Recipes of decoding, alignment, posteriors, features and data sets: every
interruption, failure and split into jobs leads to the same results."""
import os
import re
from checks import C26
from checks.C26 import Run, points, interrupt, alis

PROP = 'C27'
CHUNK = 1
BOUNDS = {
    'quick': '5 recipes x 5 utterances (and 12, 1) x 1-7, 12 jobs x both '
             'orders of the tasks x options; a crash before or after, or a '
             'failure of, every command with 3 jobs, then resumption with '
             '1, 2, 3 or 4 jobs; a crash before the commands of 12 jobs, then '
             '2 jobs',
    'thorough': '1-13 jobs, crash with 1-4 jobs, resumption with 1-4 jobs',
}
ASSUMPTIONS = C26.ASSUMPTIONS


class Step(C26.Spec):
    n = 5

    def setup(self, r, opts=()):
        pairs = dict(zip(*[iter(opts)] * 2))
        n = int(pairs.get('utts', 5))
        self.utts = [f'utt-{"x" * (i % 3)}{i}' for i in range(n)]
        # The list is not sorted and some names are prefixes of others.
        self.utts = self.utts[::-1]
        end = '' if pairs.get('eol') == 'no' else '\n'
        r.put('data/uttids', '\n'.join(self.utts) + end)
        r.put('data/wav.scp', '\n'.join(f'{u} wavs/{u}.wav'
                                        for u in self.utts) + end)
        r.put('conf/mfcc.yml', 'features\n')
        r.put('model', 'a model\n')
        alis(r, 'ali')

    def opts(self, pairs):
        out = []
        for k, v in pairs.items():
            if k.startswith('--'):
                out += [k] if v == '' else [k, v]
        return out

    def text(self, ref, name, text):
        with open(ref.path(name), 'w') as f:
            f.write(text)
        return name


class Decode(Step):
    name = 'decode'
    finals = ('trans',)
    options = ((), ('--acoustic-scale', '.5'), ('--per-frame', ''),
               ('--per-frame', '', '--acoustic-scale', '2.'))

    def args(self, epochs):
        return ('model', 'data/uttids', 'ds.pkl', 'exp/out')

    def reference(self, ref, epochs, opts):
        out = ref.beer('hmm', 'decode',
                       *(['--per-frame'] if '--per-frame' in opts else []),
                       '-s', opts.get('--acoustic-scale', '1.'), '%model',
                       '%ds.pkl', stdin='\n'.join(self.utts))
        return {'trans': self.text(ref, 'trans', ''.join(
            sorted(out.splitlines(True))))}


class Align(Decode):
    name = 'align'
    options = ((), ('--acoustic-scale', '.5'))

    def args(self, epochs):
        return ('model', 'ali/alis.npz', 'data', 'ds.pkl', 'exp/out')

    def reference(self, ref, epochs, opts):
        out = ref.beer('hmm', 'decode', '--per-frame', '-a', '%ali/alis.npz',
                       '-s', opts.get('--acoustic-scale', '1.'), '%model',
                       '%ds.pkl', stdin='\n'.join(self.utts))
        return {'trans': self.text(ref, 'trans', ''.join(
            sorted(out.splitlines(True))))}


class Posteriors(Step):
    name = 'posteriors'
    finals = ('posts.npz',)
    options = ((), ('--acoustic-scale', '.5'), ('--log-domain', ''))

    def args(self, epochs):
        return ('model', 'data', 'ds.pkl', 'exp/out')

    def reference(self, ref, epochs, opts):
        os.makedirs(ref.path('p'))
        ref.beer('hmm', 'posteriors',
                 *(['--log'] if '--log-domain' in opts else []), '-s',
                 opts.get('--acoustic-scale', '1.'), '%model', '%ds.pkl',
                 '@p', stdin='\n'.join(self.utts))
        ref.zip('p', 'posts.npz')
        return {'posts.npz': 'posts.npz'}


class Features(Step):
    name = 'extract_features'
    finals = ('mfcc.npz',)

    def args(self, epochs):
        return ('conf/mfcc.yml', 'data/wav.scp', 'exp/out')

    def reference(self, ref, epochs, opts):
        os.makedirs(ref.path('f'))
        with open(f'{ref.r.w}/data/wav.scp') as f:
            ref.beer('features', 'extract', '%conf/mfcc.yml', '-', '@f',
                     stdin=f.read())
        ref.beer('features', 'archive', '@f', '@mfcc.npz')
        return {'mfcc.npz': 'mfcc.npz'}


class Dataset(Step):
    name = 'create_dataset'
    finals = ('ds.pkl',)
    jobs = False

    def args(self, epochs):
        return ('data', 'conf/mfcc.yml', 'exp/out/ds.pkl')

    def reference(self, ref, epochs, opts):
        ref.beer('dataset', 'create', 'data', '%conf/mfcc.yml', '@ds.pkl')
        return {'ds.pkl': 'ds.pkl'}


SPECS = {c.name: c for c in (Decode, Align, Posteriors, Features, Dataset)}


def cases(tier):
    big = tier == 'thorough'
    for name, cls in SPECS.items():
        for opts in cls.options:
            yield {'k': 'run', 'recipe': name, 'njobs': 2, 'opts': opts}
        if name == 'create_dataset':
            for mode in ('before', 'after', 'fail'):
                yield {'k': 'crash', 'recipe': name, 'mode': mode, 'n1': 1,
                       'n2': 1}
            continue
        for utts in (1, 5, 12):
            for njobs in range(1, 14) if big else (1, 2, 3, 4, 5, 7, 12):
                for rev in (0, 1):
                    yield {'k': 'run', 'recipe': name, 'njobs': njobs,
                           'opts': ['utts', str(utts)], 'rev': rev}
        for njobs in range(1, 8) if big else (1, 2, 4):
            yield {'k': 'run', 'recipe': name, 'njobs': njobs,
                   'opts': ['eol', 'no']}
        yield {'k': 'wide', 'recipe': name, 'mode': 'before', 'n1': 12,
               'n2': 2, 'opts': ['utts', '12']}
        for mode in ('before', 'after', 'fail'):
            for n1 in ((1, 2, 3, 4) if big else (3,)):
                for n2 in (1, 2, 3, 4):
                    yield {'k': 'crash', 'recipe': name, 'mode': mode,
                           'n1': n1, 'n2': n2}


class StepRun(Run):
    def run(self, njobs, **kw):
        jobs = () if getattr(self.spec, 'jobs', True) is False else (
            '--parallel-njobs', njobs)
        code = self.r.run(self.spec.name, *jobs, *self.spec.opts(self.pairs),
                          *self.spec.args(self.epochs), **kw)
        ev = self.r.events()
        self.cx.step(sum(x[0] == 'start' for x in ev))
        return code, ev


def run(case, cx):
    spec = SPECS[case['recipe']]()
    r = StepRun(spec, cx, 0, case.get('opts', ()))
    if case['k'] == 'run':
        r.complete(case['njobs'], 'uninterrupted', reverse=case.get('rev'))
        ev = r.complete(case['njobs'], 'again')
        done = [x for x in C26.starts(ev) if C26.is_task(x)]
        cx.same(done, [], 'commands run again by a finished recipe')
        left = [x for x in os.listdir(f'{r.r.w}/exp/out')
                if re.match(r'tmp\.', x)]
        cx.same(left, [], 'temporary directories left')
        cx.label(f'{spec.name} uninterrupted')
        return
    mode = case['mode']
    labels = points(r, cx, case['n1'])
    for k, label in enumerate(labels):
        # More than nine jobs, then fewer of them: every command that gathers
        # the results and some of the others.
        if case['k'] == 'wide' and len(labels) > 24 and C26.is_task(label) \
                and k % 5:
            continue
        r.reset()
        if not interrupt(r, cx, label, mode, case['n1']):
            continue
        if mode == 'fail':
            cx.same([x for x in spec.finals if r.has(x)], [],
                    f'fail {label}: result after a failure')
        r.complete(case['n2'], f'resumed after {mode} {label}')
        cx.state(label, mode, case['n2'])
