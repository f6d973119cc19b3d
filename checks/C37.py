"""Scoring recipes: every interruption or failure leads to the scores of the
complete transcriptions."""
import itertools
import os
import shutil
import sys
from mc import cli
from mc.recipe import Recipe
from checks.C25 import edit, last, merge

PROP = 'C37'
CHUNK = 1
BOUNDS = {
    'quick': '2 recipes, 7 sets of options and transcriptions: uninterrupted '
             '(twice, one or all the scores removed), a crash before, after or in '
             'the middle of the output of every command, a failure of every '
             'command, then resumption',
    'thorough': 'also every pair of interruptions',
}
ASSUMPTIONS = [
    'the crash points are before and after each program started by the '
    'recipe, and in the middle of what it writes',
    'the scores of the programs alone are those of C25',
]

PYTHON = r'''#!/bin/bash
# Stand-in for python: a point of the history.
state=STATE
lab="python $1"
n=$(grep -c -F -- "start"$'\t'"$lab#" $state/log)
lab="$lab#$((n + 1))"
printf 'start\t%s\n' "$lab" >> $state/log
if [ -s $state/fault ]; then
    { read -r fault; read -r mode; } < $state/fault
    if [ "$fault" = "$lab" ]; then
        [ $mode = before ] && kill -9 0
        touch $state/now
        REAL "$@" > $state/out
        if [ $mode = after ]; then
            cat $state/out
            kill -9 0
        fi
        # Half of the outputs.
        head -c $(($(stat -c %s $state/out) / 2)) $state/out
        find exp -newer $state/now -type f | while read f; do
            size=$(stat -c %s $f)
            [ $size -gt 0 ] && truncate -s $((size / 2)) $f
        done
        [ $mode = fail ] && exit 1
        kill -9 0
    fi
fi
REAL "$@"
code=$?
printf 'end\t%s\n' "$lab" >> $state/log
exit $code
'''

# name, options, reference and hypothesis
REF = {'one': 'u1 a a b b b c\nu2 b b a a\n',
       'more': ''.join(f'utt{i} ' + ' '.join('abcd'[(k // 3 + i) % 4]
                                              for k in range(14)) + '\n'
                       for i in range(6))}
HYP = {'one': 'u1 X X X Y Y Y\nu2 Y Z X X\n',
       'more': ''.join(f'utt{i} ' + ' '.join('WXYZ'[(k // 4 + i * i) % 4]
                                              for k in range(14)) + '\n'
                       for i in range(6))}
MAP = 'a v\nb w\nc w\nd d\n'
AUMAP = 'X b\nY c\nW a\n'
SETS = [('score_aud', (), 'one'), ('score_aud', (), 'more'),
        ('score_aud', ('mapping',), 'more'),
        ('score_aud', ('au-mapping',), 'more'),
        ('score_aud', ('au-mapping', 'mapping'), 'one'),
        ('score_ter', (), 'more'), ('score_ter', ('mapping',), 'one')]
FINALS = {'score_aud': {'eq_per': 'PER: ', 'nmi': 'NMI: ', 'entropy_rate':
                        'entropy rate, perplexity: ', 'phone_boundaries':
                        'recall, precision, fscore: '},
          'score_ter': {'ter': 'TER: '}}


def cases(tier):
    for i in range(len(SETS)):
        yield {'k': 'run', 'set': i}
        if tier != 'thorough' and i not in (1, 4, 5):
            continue
        for mode in ('before', 'mid', 'after', 'fail'):
            yield {'k': 'crash', 'set': i, 'mode': mode}
            if tier == 'thorough':
                for mode2 in ('before', 'mid', 'after', 'fail'):
                    yield {'k': 'pairs', 'set': i, 'mode': mode,
                           'mode2': mode2}


class Run:
    def __init__(self, cx, index):
        self.cx = cx
        self.name, self.opts, self.data = SETS[index]
        self.r = Recipe(cx.tmpdir())
        real = ('OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 '
                f'PYTHONWARNINGS=ignore {sys.executable}')
        self.r.script('python', PYTHON.replace('STATE', self.r.state)
                      .replace('REAL', real))
        ref, hyp = REF[self.data], HYP[self.data]
        if self.name == 'score_ter':
            hyp = ''.join(x.translate(str.maketrans('WXYZ', 'dabc'))
                          for x in hyp)
        self.r.put('data/ali', ref)
        self.r.put('hyp/trans', hyp)
        self.r.put('data/map', MAP)
        self.r.put('data/aumap', AUMAP)
        self.want = self.reference()

    def args(self):
        out = []
        for o in self.opts:
            out += [f'--{o}', {'mapping': 'data/map',
                               'au-mapping': 'data/aumap'}[o]]
        return out + ['data/ali', 'hyp/trans', 'exp/score']

    def reference(self):
        'The scores, by the programs alone and by hand.'
        w = self.r.w
        path = os.path.join(cli.REPO, 'recipes', 'aud', 'utils')
        scores = os.path.join(self.r.tmp, 'ref')
        os.makedirs(scores)

        def script(name, *args):
            return run_script(f'{path}/{name}.py', *args)
        maps = ['--mapping', f'{w}/data/map'] if 'mapping' in self.opts else []
        ref = read(f'{w}/data/ali')
        hyp = read(f'{w}/hyp/trans')
        if self.name == 'score_ter':
            return {'ter': script('ter', '--no-repeat', *maps,
                                  f'{w}/data/ali', f'{w}/hyp/trans')}
        script('maxoverlap_mapping', f'{w}/data/ali', f'{w}/hyp/trans',
               '--counts', f'{scores}/counts', f'{scores}/map')
        aumap = f'{w}/data/aumap' if 'au-mapping' in self.opts \
            else f'{scores}/map'
        pairs = dict(x.split() for x in open(aumap))
        with open(f'{scores}/trans', 'w') as f:
            for u, seq in hyp.items():
                f.write(f'{u} {" ".join(pairs.get(x, "<unk>") for x in seq)}'
                        '\n')
        if 'mapping' in self.opts:
            # An unknown unit is not in the mapping.
            maps[1] = f'{w}/data/map'
        out = {'eq_per': script('ter', '--no-repeat', *maps, f'{w}/data/ali',
                                f'{scores}/trans'),
               'nmi': script('nmi', f'{scores}/counts'),
               'entropy_rate': script('entropy_rate', f'{w}/hyp/trans'),
               'phone_boundaries': script('score_boundaries', f'{w}/data/ali',
                                          f'{w}/hyp/trans')}
        if not maps:
            n = err = 0
            for u, seq in ref.items():
                r = merge(seq)
                n += len(r)
                err += edit(r, merge([pairs.get(x, '<unk>')
                                      for x in hyp[u]]))
            per = float(last(out['eq_per']).split()[-1].rstrip('%'))
            self.cx.close(per, 100. * err / n, 'error rate', 1e-2, 1e-2)
        return out

    def run(self, fault=None):
        code = self.r.run(self.name, *self.args(),
                          plan={'fault': fault} if fault else None)
        ev = [x[1] for x in self.r.events() if x[0] == 'start']
        self.cx.step(len(ev))
        return code, ev

    def files(self, what):
        'Scores in the directory, all complete.'
        out = set()
        for name, want in self.want.items():
            path = f'{self.r.w}/exp/score/{name}'
            if os.path.exists(path):
                out.add(name)
                with open(path) as f:
                    self.cx.same(f.read(), want, f'{name}, {what}')
        return out

    def complete(self, what):
        code, ev = self.run()
        if code != 0:
            self.cx.fail(f'{what}: status {code}: {self.r.output()}')
        self.cx.same(sorted(self.files(what)), sorted(self.want),
                     f'scores, {what}')
        shown = self.r.output()
        for name, title in FINALS[self.name].items():
            self.cx.check(f'{title}{last(self.want[name])}\n' in shown,
                          f'{name} shown, {what}')
        return ev

    def reset(self):
        shutil.rmtree(f'{self.r.w}/exp', ignore_errors=True)

    def interrupt(self, label, mode, what):
        code, ev = self.run([label, mode])
        if label not in ev:
            return False
        if mode == 'fail':
            # (the failure of a program which is not needed is ignored)
            if code == 0:
                done = self.files(what)
                self.cx.same(sorted(done), sorted(self.want),
                             f'status 0 after a failure, {what}')
        else:
            self.cx.same(code, -9, f'status, {what}')
        if self.name == 'score_aud':
            self.files(what)
        return True


def read(path):
    with open(path) as f:
        return {x.split()[0]: x.split()[1:] for x in f}


def run_script(path, *args):
    import subprocess
    return subprocess.run([sys.executable, path, *args], check=True,
                          stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                          text=True).stdout


def run(case, cx):
    r = Run(cx, case['set'])
    name = f'{r.name} {r.opts} {r.data}'
    labels = sorted(set(r.complete(f'{name} uninterrupted')))
    cx.state(name, sorted(r.want.items()))
    if case['k'] == 'run':
        ev = r.complete(f'{name} again')
        cx.same([x for x in ev if x.startswith('python')], [],
                f'{name}: computed again')
        for k in sorted({1, len(r.want)}):
            for gone in itertools.combinations(sorted(r.want), k):
                for f in gone:
                    os.remove(f'{r.r.w}/exp/score/{f}')
                if r.name == 'score_ter':
                    os.remove(f'{r.r.w}/exp/score/.done_per')
                r.complete(f'{name}, {gone} removed')
                cx.state(name, gone)
        cx.label('uninterrupted')
        cx.trace()
        return
    mode = case['mode']
    for label in labels:
        if mode == 'mid' and not label.startswith('python'):
            continue
        for label2 in (labels if case['k'] == 'pairs' else [None]):
            r.reset()
            what = f'{name}, {mode} {label}'
            if not r.interrupt(label, mode, what):
                continue
            if label2 is not None:
                mode2 = case['mode2']
                if mode2 == 'mid' and not label2.startswith('python'):
                    continue
                what += f', {mode2} {label2}'
                if not r.interrupt(label2, mode2, what):
                    continue
            r.complete(f'resumed, {what}')
            cx.state(what)
            cx.trace()
            cx.label(mode)
